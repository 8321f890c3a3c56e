"""Definite assignment: local names that no path has bound where they are read."""
import ast
from . import scopes

B, U = 1, 2   # bits: bound on some path, unbound on some path

class Flow:
  """Forward analysis of one function; state: dict name -> bits, or None when unreachable."""
  def __init__(self, fn):
    self.fn = fn; self.bad = []    # (Name node, bits)
    b, g = scopes.binds(fn)
    a = fn.args
    self.params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
    self.locals = set(b)
    st = {n: (B if n in self.params else U) for n in self.locals}
    self.exits = []
    body = [ast.Expr(fn.body)] if isinstance(fn, ast.Lambda) else fn.body
    self.loops = []; self.handlers = []
    self.block(body, st)
  def join(self, a, b):
    if a is None: return b
    if b is None: return a
    return {k: a[k] | b[k] for k in a}
  def block(self, ss, st):
    for s in ss:
      if st is None: return None
      st = self.stmt(s, st)
      if self.handlers and st is not None: self.handlers[-1] = self.join(self.handlers[-1], dict(st))
    return st
  def bind(self, t, st):
    if isinstance(t, ast.Name):
      if t.id in st: st[t.id] = B
    elif isinstance(t, (ast.Tuple, ast.List)):
      for e in t.elts: self.bind(e, st)
    elif isinstance(t, ast.Starred): self.bind(t.value, st)
    else: self.expr(t, st)
  def expr(self, e, st):
    if e is None: return
    if isinstance(e, ast.Name):
      if isinstance(e.ctx, ast.Load) and e.id in st:
        if st[e.id] & U: self.bad.append((e, st[e.id]))
      return
    if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp)):
      if isinstance(e, ast.GeneratorExp): self.expr(e.generators[0].iter, st)
      elif isinstance(e, ast.Lambda):
        for d in e.args.defaults + [k for k in e.args.kw_defaults if k]: self.expr(d, st)
      return
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
      own = set()
      for g in e.generators:
        for n in ast.walk(g.target):
          if isinstance(n, ast.Name): own.add(n.id)
      st2 = {k: (B if k in own else v) for k, v in st.items()}
      for i, g in enumerate(e.generators):
        self.expr(g.iter, st if i == 0 else st2)
        for c in g.ifs: self.expr(c, st2)
      for f in ('elt', 'key', 'value'):
        if getattr(e, f, None) is not None: self.expr(getattr(e, f), st2)
      return
    if isinstance(e, ast.BoolOp):
      self.expr(e.values[0], st)
      for v in e.values[1:]:
        q = dict(st); self.expr(v, q)
      return
    if isinstance(e, ast.IfExp):
      self.expr(e.test, st); self.expr(e.body, dict(st)); self.expr(e.orelse, dict(st)); return
    if isinstance(e, ast.NamedExpr):
      self.expr(e.value, st); self.bind(e.target, st); return
    for ch in ast.iter_child_nodes(e):
      if isinstance(ch, (ast.expr, ast.keyword)): self.expr(ch, st)
  def stmt(self, s, st):
    E = self.expr
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]: E(d, st)
      if s.name in st: st[s.name] = B
      return st
    if isinstance(s, ast.ClassDef):
      for d in s.decorator_list + s.bases: E(d, st)
      if s.name in st: st[s.name] = B
      return st
    if isinstance(s, ast.Assign):
      E(s.value, st)
      for t in s.targets: self.bind(t, st)
      return st
    if isinstance(s, ast.AnnAssign):
      if s.value is not None: E(s.value, st); self.bind(s.target, st)
      return st
    if isinstance(s, ast.AugAssign):
      if isinstance(s.target, ast.Name):
        n = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target); n._parent = s; n._mod = getattr(s, '_mod', None)
        E(n, st)
      else: E(s.target, st)
      E(s.value, st); self.bind(s.target, st); return st
    if isinstance(s, (ast.Return, ast.Raise)):
      for ch in ast.iter_child_nodes(s): E(ch, st)
      return None
    if isinstance(s, ast.Assert):
      E(s.test, st)
      if s.msg is not None: E(s.msg, dict(st))
      return None if isinstance(s.test, ast.Constant) and not s.test.value else st
    if isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Name):
          if t.id in st:
            if st[t.id] & U: self.bad.append((t, st[t.id]))
            st[t.id] = U
        else: E(t, st)
      return st
    if isinstance(s, ast.If):
      E(s.test, st)
      a = self.block(s.body, dict(st)); b = self.block(s.orelse, dict(st))
      return self.join(a, b)
    if isinstance(s, (ast.For, ast.AsyncFor)):
      E(s.iter, st)
      cur = dict(st)
      for rnd in range(2):
        nb = len(self.bad)
        q = dict(cur); self.bind(s.target, q)
        self.loops.append([None, None])
        q = self.block(s.body, q)
        br, co = self.loops.pop()
        q = self.join(q, co)
        nxt = self.join(cur, q)
        if rnd == 0: del self.bad[nb:]
        cur = nxt
      out = self.block(s.orelse, dict(cur)) if s.orelse else cur
      return self.join(out, br)
    if isinstance(s, ast.While):
      cur = dict(st); inf = isinstance(s.test, ast.Constant) and s.test.value
      for rnd in range(2):
        nb = len(self.bad)
        q = dict(cur); E(s.test, q); tst = dict(q)
        self.loops.append([None, None])
        q = self.block(s.body, q)
        br, co = self.loops.pop()
        q = self.join(q, co)
        if rnd == 0: del self.bad[nb:]
        cur = self.join(cur, q)
      out = None if inf else (self.block(s.orelse, dict(cur)) if s.orelse else cur)
      return self.join(out, br)
    if isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        E(i.context_expr, st)
        if i.optional_vars is not None: self.bind(i.optional_vars, st)
      return self.block(s.body, st)
    if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
      self.handlers.append(dict(st))
      body = self.block(s.body, dict(st))
      at = self.handlers.pop()
      if self.handlers: self.handlers[-1] = self.join(self.handlers[-1], dict(at))
      out = self.block(s.orelse, body) if body is not None else None
      for h in s.handlers:
        q = dict(at)
        E(h.type, q)
        if h.name and h.name in q: q[h.name] = B
        q = self.block(h.body, q)
        if q is not None and h.name and h.name in q: q[h.name] = U
        out = self.join(out, q)
      if s.finalbody:
        fin = self.join(out, at) if out is not None else dict(at)
        self.block(s.finalbody, dict(fin))
        if out is not None:
          k = len(self.bad); out = self.block(s.finalbody, out); del self.bad[k:]
      return out
    if isinstance(s, (ast.Break, ast.Continue)):
      if self.loops:
        i = 0 if isinstance(s, ast.Break) else 1
        self.loops[-1][i] = self.join(self.loops[-1][i], dict(st))
      return None
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      for a in s.names:
        n = a.asname or a.name.split('.')[0]
        if n in st: st[n] = B
      return st
    if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)): return st
    if isinstance(s, ast.Match):
      E(s.subject, st); out = dict(st)
      for c in s.cases:
        q = dict(st)
        for n in ast.walk(c.pattern):
          if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name and n.name in q: q[n.name] = B
        out = self.join(out, self.block(c.body, q))
      return out
    for ch in ast.iter_child_nodes(s): E(ch, st)
    return st

def unbound(fn):
  """[(Name node, definitely?)] reads of locals that some path, or every path, leaves unbound."""
  f = Flow(fn); seen = {}
  for n, bits in f.bad: seen[n] = seen.get(n, 0) | bits
  return [(n, not (b & B)) for n, b in seen.items()]
