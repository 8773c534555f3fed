"""Development only: random mutants of the package; the analysis against real runs.
usage: mutate.py SEED COUNT [file-glob]"""
import ast, sys, os, random, shutil, subprocess, json, copy, glob, re
SEED, COUNT = int(sys.argv[1]), int(sys.argv[2])
PAT = sys.argv[3] if len(sys.argv) > 3 else '**/*.py'
rng = random.Random(SEED)
BASE = '/tmp/mut%d' % SEED
files = sorted(glob.glob('/repo/src/arinc424/' + PAT, recursive=True))
weights = [os.path.getsize(f) ** .5 for f in files]


class M(ast.NodeTransformer):
  """collects (or applies the k-th) mutation"""

  def __init__(self, k=None):
    self.k, self.n, self.desc = k, 0, None

  def hit(self, node, desc):
    self.n += 1
    if self.k is not None and self.n - 1 == self.k:
      self.desc = '%s:%s %s' % (getattr(node, 'lineno', '?'), type(node).__name__, desc)
      return True
    return False

  def visit_Constant(self, node):
    v = node.value
    if isinstance(v, bool):
      if self.hit(node, 'not bool'):
        return ast.copy_location(ast.Constant(not v), node)
    elif isinstance(v, int):
      if self.hit(node, '+1'):
        return ast.copy_location(ast.Constant(v + 1), node)
      if self.hit(node, '-1'):
        return ast.copy_location(ast.Constant(v - 1), node)
    elif isinstance(v, str) and v and len(v) < 60:
      if self.hit(node, 'str drop'):
        return ast.copy_location(ast.Constant(v[:-1]), node)
      if self.hit(node, 'str add'):
        return ast.copy_location(ast.Constant(v + 'X'), node)
      if len(v) <= 3 and self.hit(node, 'str other'):
        return ast.copy_location(ast.Constant(v[:-1] + rng.choice('ABCPQS019 ')), node)
    return node

  def visit_Compare(self, node):
    self.generic_visit(node)
    swap = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    t = type(node.ops[0])
    if t in swap and self.hit(node, 'cmp'):
      node.ops[0] = swap[t]()
    elif t is ast.Eq and self.hit(node, 'eq->in'):
      node.ops[0] = ast.In()
    return node

  def visit_BoolOp(self, node):
    self.generic_visit(node)
    if self.hit(node, 'and/or'):
      node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif self.hit(node, 'drop operand'):
      return node.values[rng.randrange(len(node.values))]
    return node

  def visit_If(self, node):
    self.generic_visit(node)
    if self.hit(node, 'if False'):
      node.test = ast.Constant(False)
    elif self.hit(node, 'if True'):
      node.test = ast.Constant(True)
    return node

  def visit_Call(self, node):
    self.generic_visit(node)
    if isinstance(node.func, ast.Attribute) and node.func.attr in ('strip', 'lstrip', 'rstrip', 'upper', 'format', 'zfill') and self.hit(node, 'drop .' + node.func.attr):
      return node.func.value
    if isinstance(node.func, ast.Name) and node.func.id == 'Field' and len(node.args) == 3 and isinstance(node.args[2], ast.Name) and self.hit(node, 'decoder'):
      node.args[2].id = rng.choice(DEC)
    return node

  def visit_Attribute(self, node):
    self.generic_visit(node)
    swap = {'isnumeric': 'isalnum', 'isalnum': 'isalpha', 'isdigit': 'isalnum', 'strip': 'lstrip', 'lstrip': 'rstrip', 'startswith': 'endswith', 'raw': 'ident'}
    if node.attr in swap and self.hit(node, '.' + swap[node.attr]):
      node.attr = swap[node.attr]
    return node

  def visit_Expr(self, node):
    self.generic_visit(node)
    if isinstance(node.value, ast.Call) and self.hit(node, 'drop stmt'):
      return ast.copy_location(ast.Pass(), node)
    return node

  def visit_Assign(self, node):
    self.generic_visit(node)
    if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)) and self.hit(node, 'drop assign'):
      return ast.copy_location(ast.Pass(), node)
    return node

  def visit_List(self, node):
    self.generic_visit(node)
    if len(node.elts) > 2:
      if self.hit(node, 'drop elt'):
        del node.elts[rng.randrange(len(node.elts))]
      elif self.hit(node, 'swap elts'):
        i = rng.randrange(len(node.elts) - 1)
        node.elts[i], node.elts[i + 1] = node.elts[i + 1], node.elts[i]
    return node


DEC = sorted(set(re.findall(r'def (field_\w+)', open('/repo/src/arinc424/decoder.py').read())))
stat = {}
for c in range(COUNT):
  f = rng.choices(files, weights)[0]
  src = open(f).read()
  m = M()
  m.visit(ast.parse(src))
  if not m.n:
    continue
  m2 = M(rng.randrange(m.n))
  tree = m2.visit(ast.parse(src))
  new = ast.unparse(ast.fix_missing_locations(tree))
  shutil.rmtree(BASE, ignore_errors=True)
  shutil.copytree('/repo', BASE, ignore=shutil.ignore_patterns('.git', '__pycache__'))
  g = f.replace('/repo', BASE)
  open(g, 'w').write(new)
  d = subprocess.run(['/opt/venv/bin/python', '/verif/dev/differential.py', '6', BASE + '/src'], capture_output=True, text=True)
  alive = d.returncode == 0
  bad = [l for l in d.stdout.splitlines() if l.startswith('(')]
  e = dict(os.environ, VERIF_REPO=BASE, VERIF_DEBUG='1')
  r = subprocess.run(['python3', '/verif/dev/sweep.py'], capture_output=True, text=True, env=e)
  out = r.stdout.strip().splitlines()
  found = [l for l in out if l.startswith('F ')]
  undec = [l for l in out if l.startswith('U ')]
  verdict = ('%s real:%s analysis:%s' % ('' if alive else 'DEAD ', 'differs' if bad else 'same', 'finds' if found else 'quiet'))
  stat[verdict] = stat.get(verdict, 0) + 1
  flag = '' if not alive or bool(bad) == bool(found) else ' <<<<<'
  print(c, f.replace('/repo/src/arinc424/', ''), m2.desc, '|', verdict, '|', undec[:1], flag, flush=True)
  if flag:
    print('     ', (bad or [''])[0][:400])
    print('     ', (found or [''])[0][:400], r.stderr[-300:])
    open('/tmp/mutflag-%d-%d.py' % (SEED, c), 'w').write('# %s\n' % f + new)
  elif found and c % 10 == 0:
    print('     ', found[0][:300])
print(stat)
shutil.rmtree(BASE, ignore_errors=True)
