"""Development only: every small mutant of given files that passes the stable tests, against all checks.
usage: mutate2.py OUT file[:first-last] ..."""
import ast, sys, os, shutil, subprocess, runpy, types, re, random
src = open('/verif/dev/mutate.py').read().split('DEC = sorted')[0].replace('SEED, COUNT = int(sys.argv[1]), int(sys.argv[2])', 'SEED, COUNT = 1, 1')
argv, sys.argv = sys.argv, ['x']
exec(src)
DEC = sorted(set(re.findall(r'def (field_\w+)', open('/repo/src/arinc424/decoder.py').read())))
ORDER = os.environ.get('CHECKS', 'C07 C17 C02 C05 C18 C12 C15 C16 C20 C21 C13 C19').split()
out = open(argv[1], 'w')
for spec in argv[2:]:
  f = '/repo/src/arinc424/' + spec
  text = open(f).read()
  m = M(); m.visit(ast.parse(text))
  for k in range(int(os.environ.get('K0', 0)), int(os.environ.get('K1', m.n)), int(os.environ.get('STEP', 1))):
    m2 = M(k)
    tree = m2.visit(ast.parse(text))
    new = ast.unparse(ast.fix_missing_locations(tree))
    w = '/tmp/mut2-' + os.environ.get('K0', '') + os.path.basename(argv[1])
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    open(f.replace('/repo', w), 'w').write(new)
    t = subprocess.run('cd %s && PYTHONPATH=%s/src timeout 60 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1' % (w, w), shell=True, capture_output=True, text=True).stdout
    if '26 passed' not in t:
      continue
    caught = None
    for c in ORDER:
      r = subprocess.run(['python3', '/verif/run.py', c, '--tier', 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w), cwd='/verif')
      if r.returncode == 1:
        caught = c
        break
      if r.returncode != 0:
        caught = '?%s %d %s' % (c, r.returncode, r.stdout[-200:])
    print(spec, k, m2.desc, '|', text.splitlines()[int(m2.desc.split(':')[0]) - 1].strip() if m2.desc[0].isdigit() else '', '|', caught or 'QUIET', file=out, flush=True)
shutil.rmtree(w, ignore_errors=True)
print('done', file=out, flush=True)
