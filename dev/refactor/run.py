import sys, os, shutil, subprocess, importlib.util
name = sys.argv[1]
props = sys.argv[2:] or ['C%02d' % i for i in range(1, 22)]
dst = '/tmp/ref-' + name
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', '__pycache__'))
sp = importlib.util.spec_from_file_location('r', '/verif/dev/refactor/%s.py' % name)
m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
m.apply(dst + '/src/arinc424')
d = subprocess.run(['/opt/venv/bin/python', '/verif/dev/differential.py', '8', dst + '/src'], capture_output=True, text=True)
print('differential', d.returncode, d.stdout[-600:], d.stderr[-800:])
if d.returncode or '(' in d.stdout:
  sys.exit(1)
t = subprocess.run('cd %s && PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q tests 2>&1 | tail -3' % (dst, dst), shell=True, capture_output=True, text=True)
print(t.stdout)
for p in props:
  r = subprocess.run(['python3', '/verif/run.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=dst))
  print(p, r.returncode, '\n'.join(l[:300] for l in r.stdout.splitlines() if not l.startswith('KNOWN'))[:1500], r.stderr[-500:], flush=True)
