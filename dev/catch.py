"""Development only: the matching check (or all with --all) on each planted bug, in a scratch clone."""
import sys, os, json, shutil, subprocess, glob
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ALL = '--all' in sys.argv
for d in sorted(glob.glob('/verif/seeded/*')):
  n = os.path.basename(d)
  if args and n not in args:
    continue
  w = '/tmp/catch-' + n
  shutil.rmtree(w, ignore_errors=True)
  subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
  subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
  prop = json.load(open(d + '/meta.json'))['property']
  hit = []
  for p in (['C%02d' % i for i in range(1, 22)] if ALL else [prop]):
    r = subprocess.run(['python3', '/verif/run.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
    if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
      hit.append(p)
    elif r.returncode:
      hit.append('%s!%d' % (p, r.returncode))
    if p == prop:
      first = '\n'.join(l for l in r.stdout.splitlines() if not l.startswith('KNOWN'))[:420 if hit else 300] + r.stderr[-300:]
  print(n, prop, 'CAUGHT' if prop in hit else 'MISSED', hit, '\n   ', first, flush=True)
  shutil.rmtree(w, ignore_errors=True)
