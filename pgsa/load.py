"""Source loading: parses every module of the package under analysis."""
import ast, os, hashlib

REPO = os.environ.get('PGSA_REPO', '/repo')

class Module:
  def __init__(self, name, path, rel):
    self.name, self.path, self.rel = name, path, rel
    with open(path, encoding='utf-8') as f: self.src = f.read()
    import warnings
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      self.tree = ast.parse(self.src, filename=path)
    self.digest = hashlib.sha256(self.src.encode()).hexdigest()[:12]
    for parent in ast.walk(self.tree):
      for ch in ast.iter_child_nodes(parent):
        ch._parent = parent
        ch._mod = self
    self.tree._mod = self; self.tree._parent = None

class Program:
  """All python modules of /repo/pygeode, by dotted name."""
  def __init__(self, repo=None):
    self.repo = repo or REPO
    self.modules = {}
    base = os.path.join(self.repo, 'pygeode')
    for root, dirs, files in os.walk(base):
      dirs[:] = sorted(d for d in dirs if d != '__pycache__')
      for f in sorted(files):
        if not f.endswith('.py'): continue
        path = os.path.join(root, f)
        rel = os.path.relpath(path, self.repo)
        parts = rel[:-3].split(os.sep)
        if parts[-1] == '__init__': parts = parts[:-1]
        name = '.'.join(parts)
        self.modules[name] = Module(name, path, rel)
  def functions(self):
    """(module, qualified name, node) of every function definition."""
    for m in self.modules.values():
      yield from _funcs(m, m.tree, '')
  def classes(self):
    for m in self.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.ClassDef): yield m, n

def _funcs(m, node, prefix):
  for ch in ast.iter_child_nodes(node):
    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
      q = prefix + ch.name
      yield m, q, ch
      yield from _funcs(m, ch, q + '.')
    elif isinstance(ch, ast.ClassDef):
      yield from _funcs(m, ch, prefix + ch.name + '.')
    else:
      yield from _funcs(m, ch, prefix)

def qualname(node):
  """Dotted name of the innermost function/class enclosing (or being) a node."""
  parts = []
  n = node
  while n is not None:
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)): parts.append(n.name)
    elif isinstance(n, ast.Lambda): parts.append('<lambda>')
    n = getattr(n, '_parent', None)
  return '.'.join(reversed(parts)) or '<module>'

def where(node):
  m = getattr(node, '_mod', None)
  return '%s:%d' % (m.rel if m else '?', getattr(node, 'lineno', 0))

def src(node, limit=100):
  try: s = ast.unparse(node)
  except Exception: s = type(node).__name__
  s = ' '.join(s.split())
  return s if len(s) <= limit else s[:limit-3] + '...'
