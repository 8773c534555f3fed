"""Which effects on the world the package's code can have at all: a scan of every
call and import of every module of the package."""
import ast

from .core import *

# name patterns of calls that act on the world; 'mod.*' everything of a module
BANNED = {
    'os': {'remove', 'unlink', 'rename', 'renames', 'replace', 'mkdir', 'makedirs', 'rmdir', 'removedirs', 'system', 'popen', 'fork', 'forkpty',
           'kill', 'killpg', '_exit', 'abort', 'chdir', 'fchdir', 'chmod', 'chown', 'lchown', 'link', 'symlink', 'truncate', 'putenv',
           'unsetenv', 'setuid', 'setgid', 'umask', 'write', 'mkfifo', 'mknod', 'utime', 'startfile', 'posix_spawn', 'posix_spawnp',
           'execl', 'execle', 'execlp', 'execv', 'execve', 'execvp', 'execvpe', 'spawnl', 'spawnle', 'spawnlp', 'spawnv', 'spawnve', 'nice',
           'ftruncate', 'sendfile', 'pipe', 'dup2', 'close'},
    'shutil': {'rmtree', 'move', 'copy', 'copy2', 'copyfile', 'copytree', 'chown', 'make_archive', 'unpack_archive', 'copymode', 'copystat'},
    'sys': {'settrace', 'setprofile', 'exit', 'setrecursionlimit', 'addaudithook', 'setswitchinterval'},
    'sys.stderr': {'write', 'writelines'},
    'sys.path': {'append', 'insert', 'extend', 'remove', 'clear', 'pop'},
    'os.environ': {'update', 'setdefault', 'pop', 'popitem', 'clear'},
    'locale': {'setlocale'},
    'time': {'tzset'},
    'gc': {'disable', 'enable', 'freeze', 'set_threshold', 'set_debug'},
    'random': {'seed', 'setstate'},
    'decimal': {'setcontext'},
    'resource': {'setrlimit'},
    'importlib': {'reload'},
    'threading': {'settrace', 'setprofile', 'stack_size'},
    'faulthandler': {'enable', 'disable'},
    'sys.stdout': {'reconfigure', 'close', 'detach'},
    'sys.modules': {'pop', 'clear', 'update', 'setdefault'},
    'logging': {'basicConfig', 'FileHandler', 'warning', 'error', 'critical', 'exception', 'info', 'debug', 'log', 'disable'},
    'warnings': {'warn', 'simplefilter', 'filterwarnings', 'warn_explicit'},
    'io': {'FileIO'},
    'signal': {'signal', 'alarm', 'raise_signal', 'setitimer', 'pthread_kill'},
    'atexit': {'register'},
    'builtins': {'exec', 'eval', 'compile', 'input', 'breakpoint', 'exit', 'quit'},
}
WHOLE = ('subprocess', 'socket', 'urllib.request', 'http.client', 'ftplib', 'smtplib', 'requests', 'httpx', 'aiohttp', 'ssl', 'socketserver',
         'multiprocessing', 'ctypes', 'pty', 'tempfile', 'sqlite3', 'shelve', 'dbm', 'webbrowser', 'telnetlib', 'xmlrpc', 'asyncio.subprocess',
         'mmap', 'fcntl')
PATH_METHODS = {'write_text', 'write_bytes', 'unlink', 'rmdir', 'mkdir', 'touch', 'rename', 'symlink_to', 'hardlink_to', 'chmod'}


def acts(name):
  """whether a call the analysis only knows by its name acts on the world"""
  mod, _, fn = name.rpartition('.')
  if name.endswith('= ...') or name.endswith(']='):
    return True
  if any(mod == w or mod.startswith(w + '.') for w in WHOLE):
    return True
  return fn in BANNED.get(mod or 'builtins', ())


class Effects(Analysis):

  def task(self):
    for base, _, files in sorted(os.walk(PKG)):
      for f in sorted(files):
        if f.endswith('.py'):
          self.scan(os.path.join(base, f))

  def notes(self):
    n = Analysis.notes(self)
    n['files'] = set(self.seen)
    return n

  def reset(self):
    Analysis.reset(self)
    self.seen = []

  def scan(self, path):
    self.seen.append(rel(path))
    with open(path) as f:
      tree = ast.parse(f.read())
    self.stats.leaves += 1
    names = {}
    for n in ast.walk(tree):
      if isinstance(n, ast.Import):
        for a in n.names:
          names[(a.asname or a.name.split('.')[0])] = a.name if a.asname else a.name.split('.')[0]
      elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
        for a in n.names:
          names[a.asname or a.name] = n.module + '.' + a.name
    self.bound = {}
    for n in ast.walk(tree):
      if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
          if isinstance(t, ast.Name):
            self.bound.setdefault(t.id, []).append(n.value)
    script = {id(x) for n in tree.body if is_main(n) for x in ast.walk(n)}
    for n in ast.walk(tree):
      if id(n) in script:
        continue
      if isinstance(n, ast.Call):
        self.rule('calls looked at')
        self.stats.compared += 1
        self.call(path, n, names)
      elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
        for t in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
          d = dotted(t.value, names) if isinstance(t, (ast.Subscript, ast.Attribute)) else None
          if d is None:
            continue
          root = t.value
          while isinstance(root, ast.Attribute):
            root = root.value
          # something imported from elsewhere, and not a name this module binds itself
          if root.id in names and root.id not in self.bound and not names[root.id].startswith(('arinc424', '.')):
            self.bad(path, n, 'changes %s' % d)

  def call(self, path, n, names):
    d = dotted(n.func, names)
    if d is None:
      if isinstance(n.func, ast.Attribute) and n.func.attr in PATH_METHODS and (
          self.pathish(n.func.value, names) or n.func.attr in ('write_text', 'write_bytes', 'unlink', 'symlink_to', 'hardlink_to')):
        self.bad(path, n, 'calls .%s()' % n.func.attr)
      return
    if d in ('print', 'builtins.print') and any(k.arg == 'file' and dotted(k.value, names) in ('sys.stderr', 'sys.__stderr__') for k in n.keywords):
      self.bad(path, n, 'prints to standard error')
    if '.' not in d:
      if d in BANNED['builtins'] and d not in names:
        self.bad(path, n, 'calls %s()' % d)
      if d == 'open':
        self.mode(path, n)
      return
    mod, _, fn = d.rpartition('.')
    for w in WHOLE:
      if mod == w or mod.startswith(w + '.') or d == w:
        self.bad(path, n, 'calls %s()' % d)
        return
    if fn in BANNED.get(mod, ()):
      self.bad(path, n, 'calls %s()' % d)
    if d in ('io.open', 'builtins.open', 'codecs.open', 'gzip.open'):
      self.mode(path, n)

  def pathish(self, v, names):
    return isinstance(v, ast.Call) and (dotted(v.func, names) or '').startswith('pathlib.')

  def mode(self, path, n):
    m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
    for c in self.texts(m):
      if c and set(c) <= set('rwaxbtU+') and set(c) & set('wax+'):
        self.bad(path, n, 'opens a file with mode %r' % c)
        return

  def texts(self, m, depth=0):
    """the texts a mode can be made of"""
    if m is None or depth > 3:
      return
    for x in ast.walk(m):
      if isinstance(x, ast.Constant) and isinstance(x.value, str):
        yield x.value
      elif isinstance(x, ast.Name):
        for v in self.bound.get(x.id, ()):
          yield from self.texts(v, depth + 1)

  def bad(self, path, n, what):
    self.report({'C21'}, 'effects', '%s:%d' % (path, n.lineno), 'the package %s' % what, None, key=('scan', rel(path), what))


def dotted(n, names):
  parts = []
  while isinstance(n, ast.Attribute):
    parts.append(n.attr)
    n = n.value
  if not isinstance(n, ast.Name):
    return None
  parts.append(names.get(n.id, n.id) if n.id in names else n.id)
  if len(parts) > 1 and n.id not in names:
    return None              # an attribute of a local value
  return '.'.join(reversed(parts))


def is_main(n):
  """if __name__ == '__main__': ..."""
  return (isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name)
          and n.test.left.id == '__name__')
