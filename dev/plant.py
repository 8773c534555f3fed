"""Development only: writes /verif/seeded/<id>/ and confirms each planted bug in a scratch copy.
usage: plant.py [id ...]   (bugs are listed in dev/bugs*.py)"""
import sys, os, json, shutil, subprocess, glob, importlib.util
BUGS = []
for f in sorted(glob.glob('/verif/dev/bugs*.py')):
  sp = importlib.util.spec_from_file_location('b', f)
  m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
  BUGS += m.BUGS
PRELUDE = '''import contextlib, io, json, os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import arinc424


def line(section, cols=(), at13=False, tail='000018808'):
  """a 132-column line; cols: {first column (1-based): text}"""
  t = [' '] * 132
  t[0:4] = 'SUSA'
  if at13:
    t[4], t[12] = section
  else:
    t[4:6] = section
  t[123:132] = tail
  for c, text in dict(cols).items():
    t[c - 1:c - 1 + len(text)] = text
  assert len(t) == 132
  return ''.join(t)


def quiet(fn, *a, **k):
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    r = fn(*a, **k)
  return r, out.getvalue()


def read(text):
  r = arinc424.Record()
  ok, _ = quiet(r.read, text)
  assert ok, 'refused: %r' % text
  return r


def rows(r):
  """field -> decoded"""
  text, _ = quiet(r.decode)
  out = []
  for l in text.splitlines():
    if l.startswith('|'):
      p = l[1:-1].split(' | ')
      out.append([x.strip() for x in p])
  return out[1:]


def shown(r):
  return {p[0]: p[-1] for p in rows(r)}


def raw(r):
  return json.loads(quiet(r.json)[0])

'''
only = sys.argv[1:]
for b in BUGS:
  if only and b['id'] not in only:
    continue
  d = '/verif/seeded/' + b['id']
  w = '/tmp/plant'
  shutil.rmtree(w, ignore_errors=True)
  subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
  subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
  for f, old, new in b['edits']:
    p = w + '/src/arinc424/' + f
    s = open(p).read()
    if s.count(old) != 1:
      print(b['id'], 'edit matches', s.count(old), 'times:', old[:60]); break
    open(p, 'w').write(s.replace(old, new))
  else:
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(PRELUDE + '\n' + b['demo'].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds here; otherwise the assertion that failed is printed\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    clean = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    bad = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    t = subprocess.run('cd %s && PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1' % (w, w), shell=True, capture_output=True, text=True).stdout.strip()
    # original lines only
    mine = ''
    for f, old, new in b['edits']:
      bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'src/arinc424/' + f], capture_output=True, text=True).stdout.splitlines()
      src = open('/repo/src/arinc424/' + f).read()
      a = src[:src.index(old)].count('\n')
      touched = [x for x in bl[a:a + old.count('\n') + 1] if not x.startswith('^f913412')]
      if touched:
        mine = ' FIX-LINES %d' % len(touched)
    ok = clean.returncode == 0 and bad.returncode == 1 and '26 passed' in t
    print(b['id'], b['property'], 'OK' if ok else 'BAD', clean.returncode, bad.returncode, t, mine, '' if clean.returncode == 0 else clean.stderr[-400:], bad.stderr.strip().splitlines()[-1:] )
shutil.rmtree('/tmp/plant', ignore_errors=True)
