"""Name resolution on the syntax tree: which names each function binds, and which it takes from outside."""
import ast

def binds(fn):
  """Names bound in the function's own scope -> list of binding nodes; plus declared globals."""
  out = {}; glob = set(); nonl = set()
  def add(n, node): out.setdefault(n, []).append(node)
  def target(t):
    if isinstance(t, ast.Name): add(t.id, t)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for e in t.elts: target(e)
    elif isinstance(t, ast.Starred): target(t.value)
  def visit(n, top=False):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
      add(n.name, n); return
    if isinstance(n, ast.Lambda) and not top: return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      for g in n.generators: visit(g.iter)
      for w in ast.walk(n):
        if isinstance(w, ast.NamedExpr): target(w.target)
      return
    if isinstance(n, ast.Assign):
      for t in n.targets: target(t)
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): target(n.target)
    elif isinstance(n, (ast.For, ast.AsyncFor)): target(n.target)
    elif isinstance(n, ast.NamedExpr): target(n.target)
    elif isinstance(n, (ast.With, ast.AsyncWith)):
      for i in n.items:
        if i.optional_vars is not None: target(i.optional_vars)
    elif isinstance(n, ast.ExceptHandler) and n.name: add(n.name, n)
    elif isinstance(n, ast.Import):
      for a in n.names: add(a.asname or a.name.split('.')[0], n)
    elif isinstance(n, ast.ImportFrom):
      for a in n.names: add(a.asname or a.name, n)
    elif isinstance(n, ast.Delete): pass
    elif isinstance(n, ast.Global): glob.update(n.names)
    elif isinstance(n, ast.Nonlocal): nonl.update(n.names)
    elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: add(n.name, n)
    for ch in ast.iter_child_nodes(n): visit(ch)
  if isinstance(fn, ast.Lambda):
    visit(fn.body)
  else:
    for s in fn.body: visit(s)
  a = fn.args
  for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]: add(p.arg, p)
  for g in glob | nonl: out.pop(g, None)
  return out, glob

def classbinds(c):
  out = set()
  for s in c.body:
    for n in ast.walk(s):
      if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name)
      elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
      elif isinstance(n, (ast.Import, ast.ImportFrom)):
        for a in n.names: out.add(a.asname or a.name.split('.')[0])
  return out

def free_names(fn, outer=frozenset()):
  """(Name node) loads in fn's scope and nested scopes that no enclosing function scope binds."""
  out = []
  def scope(f, env):
    b, glob = binds(f)
    env = (env | set(b)) - glob
    body = [f.body] if isinstance(f, ast.Lambda) else f.body
    for s in body: walk(s, env)
  def walk(n, env):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]: walk(d, env)
      scope(n, env); return
    if isinstance(n, ast.Lambda):
      for d in n.args.defaults + [x for x in n.args.kw_defaults if x]: walk(d, env)
      scope(n, env); return
    if isinstance(n, ast.ClassDef):
      for x in n.bases + n.decorator_list + [k.value for k in n.keywords]: walk(x, env)
      cb = classbinds(n)
      for s in n.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): walk(s, env)
        else: walk(s, env | cb)
      return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      e = set(env)
      for g in n.generators:
        walk(g.iter, e)
        for w in ast.walk(g.target):
          if isinstance(w, ast.Name): e.add(w.id)
        for c in g.ifs: walk(c, e)
      if isinstance(n, ast.DictComp): walk(n.key, e); walk(n.value, e)
      else: walk(n.elt, e)
      return
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
      if n.id not in env: out.append(n)
      return
    for ch in ast.iter_child_nodes(n): walk(ch, env)
  scope(fn, set(outer))
  return out

def top_functions(tree):
  """Functions and methods not nested in another function (their nested ones are walked with them)."""
  out = []
  def w(n):
    for ch in ast.iter_child_nodes(n):
      if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)): out.append(ch)
      elif isinstance(ch, ast.Lambda): out.append(ch)
      else: w(ch)
  w(tree)
  return out
