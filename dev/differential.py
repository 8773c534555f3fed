"""Development only: does the reference (spec/, executed) agree with the real package on random
lines?  The analysis says it does everywhere, so a disagreement here is a fault of the engine."""
import sys, random, json, io, contextlib, multiprocessing
sys.path.insert(0, sys.argv[2] if len(sys.argv) > 2 else '/repo/src')
sys.path.insert(0, '/verif')
import arinc424
from checks import samples
from spec import layouts as SPEC, record as SR, meaning as M

POOL = ['0123456789', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', ' ', ' \t.-+/_', 'NSEWTUKLFPQHVABCDYM', '0', '00159', 'abcdefxyz', '"\\\'{}%', '\x1c\x1f\x0b ']


def fill(rng, n):
  r = rng.random()
  if r < .15:
    return ' ' * n
  if r < .45:
    return ''.join(rng.choice(POOL[0]) for _ in range(n))
  if r < .6:
    return rng.choice('NSEWTABCFL+-') + ''.join(rng.choice(POOL[0]) for _ in range(n - 1))
  if r < .8:
    return ''.join(rng.choice(POOL[4] + ' 0123456789') for _ in range(n))
  if r < .85:
    k = rng.randrange(n + 1)
    return (''.join(rng.choice(POOL[0] + POOL[1]) for _ in range(k))).ljust(n)
  if r < .88:
    w = rng.choice(['UNLTD', 'GND', 'MSL', 'FL100', 'NOTAM', 'NESTB', 'UNKNN', 'FL', 'NAN', 'INF', '1E5', '1_0', '+10', '-01', '1.5', 'UNSPECIFIED'])
    return w[:n].ljust(n)
  p = rng.choice(POOL)
  return ''.join(rng.choice(p) for _ in range(n))


def line(ident, sel, rng):
  t = list(samples.layout_line(ident, sel, rng))
  keep = {0, 4, 5, 12} | set(range(123, 132))
  if ident in SPEC.CONTINUATION:
    c, a = SPEC.CONTINUATION[ident]
    keep |= {c - 1} | {x - 1 for x in a or ()}
  if rng.random() < .1:
    keep = {0}
  for nm, idx, kind in SPEC.LAYOUTS[ident, sel]:
    if rng.random() < .8:
      v = fill(rng, len(idx))
      for i, ch in zip(idx, v):
        if i not in keep or rng.random() < .005:
          t[i] = ch
  s = ''.join(t)
  if rng.random() < .05:
    s = rng.choice([' ', '\t', '\n', '  ']) + s
  return s + rng.choice(['', '\n', ' \r\n', ''])


def ref(l):
  c = SR.classify(l)
  if len(c) == 1:
    return (False,)
  ident, num, sel = c
  l = l.strip()
  rows = SPEC.LAYOUTS[ident, sel]
  vals = [(nm, ''.join(l[i] for i in idx), kind) for nm, idx, kind in rows]
  j = {a.strip(): b for a, b, _ in vals}
  dec = []
  for nm, v, kind in vals:
    st, tx = M.meaning(kind)(v, ident)
    dec.append((nm.strip(), "'%s'" % v, 'REFUSED' if st == 'refuse' else tx if st != 'any' else None))
  return (True, ident, num, sel, j, dec)


class Cap:
  rows = None


def real(l):
  import prettytable
  with contextlib.redirect_stdout(io.StringIO()):
    r = arinc424.Record()
    if not r.read(l):
      return (False,)
    j = json.loads(r.json(False))
    rows = []
    orig = prettytable.PrettyTable.add_row
    prettytable.PrettyTable.add_row = lambda self, row, **k: (rows.append(row), orig(self, row, **k))[1]
    try:
      r.decode(False)
      dec = [(str(a).strip(), b, str(c)) for a, b, c in rows]
    except ValueError:
      dec = []
      for f in r.fields:
        try:
          dec.append((f.name.strip(), "'%s'" % f.value, str(f.decode(r))))
        except ValueError:
          dec.append((f.name.strip(), "'%s'" % f.value, 'REFUSED'))
    finally:
      prettytable.PrettyTable.add_row = orig
    return (True, r.ident, r.primary(), r.hasCont(), {k.strip(): v for k, v in j.items()}, dec)


def work(seed):
  rng = random.Random(seed)
  bad = []
  n = 0
  keys = sorted(SPEC.LAYOUTS)
  for _ in range(4000):
    k = rng.choice(keys)
    l = line(*k, rng)
    n += 1
    try:
      a, b = ref(l), real(l)
    except Exception as e:
      bad.append((k, l, repr(e)))
      continue
    if a[0] != b[0]:
      bad.append((k, l, 'acc', a[0], b[0])); continue
    if not a[0]:
      continue
    if a[1] != b[1] or a[4] != b[4]:
      bad.append((k, l, 'json', a[1], b[1], a[4], b[4])); continue
    p = a[2] is not None and a[2] in '01' and a[2] != ''
    if b[2] != p or b[3] != (a[2] == '1'):
      bad.append((k, l, 'num', a[2], b[2], b[3])); continue
    if (a[5] == 'refuse') != (b[5] == 'refuse'):
      bad.append((k, l, 'refuse', a[5] == 'refuse', b[5] == 'refuse')); continue
    if a[5] != 'refuse':
      for x, y in zip(a[5], b[5]):
        if x[:2] != y[:2] or (x[2] is not None and str(x[2]) != y[2]):
          bad.append((k, l, 'row', x, y)); break
      if len(a[5]) != len(b[5]):
        bad.append((k, l, 'rows'))
  return n, bad


if __name__ == '__main__':
  N = int(sys.argv[1])
  tot = 0
  with multiprocessing.Pool(8) as p:
    for n, bad in p.imap_unordered(work, range(N)):
      tot += n
      for b in bad[:3]:
        print(b)
  print(tot)
