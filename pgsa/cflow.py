"""Linear forms and dependences of the values a C function computes from its parameters.

A value is a linear combination of the fields known exactly, plus the set of fields it may depend on otherwise.  Loops are
interpreted with everything they change joined in, conditions and divisions become plain dependences, and functions of the
same file are followed.  An absent dependence is therefore definite, and so is a coefficient of a field outside the set."""
from . import cast

class L:
  """sum of c[field] * field (None: the constant) + something depending on the fields of u."""
  __slots__ = ('c', 'u', 'x')
  def __init__(self, c=None, u=frozenset(), x=False): self.c = {k: v for k, v in (c or {}).items() if v}; self.u = frozenset(u); self.x = x or bool(u)
  def deps(self): return {k for k in self.c if k is not None} | self.u
  def lin(self): return not self.x
  def key(self): return (tuple(sorted(self.c.items(), key=str)), self.u, self.x)
  def __eq__(self, o): return isinstance(o, L) and self.key() == o.key()
  def __hash__(self): return hash(self.key())
  def __repr__(self): return 'L(%s|%s%s)' % (self.c, sorted(self.u), '?' if self.x else '')
def opaque(*xs):
  u = frozenset()
  for x in xs:
    if x is not None: u |= x.deps()
  return L(None, u, True)
def add(a, b, s=1):
  c = dict(a.c)
  for k, v in b.c.items(): c[k] = c.get(k, 0) + s * v
  return L(c, a.u | b.u, a.x or b.x)
def scale(a, k): return L({f: v * k for f, v in a.c.items()}, a.u, a.x) if k else L()
def isconst(a): return not a.x and set(a.c) <= {None}
def merge(a, b, cond=None):
  if a == b: return a
  if a is None or b is None: return b if a is None else a
  c = {k: v for k, v in a.c.items() if k is not None and b.c.get(k) == v}
  u = a.u | b.u | {k for k in set(a.c) | set(b.c) if k is not None and k not in c}
  if cond is not None: u |= cond.deps()
  return L(c, u, True)

class Env:
  """Values of the variables by declaration, of the array fields by name, and what pointer variables are bound to."""
  def __init__(self, v=None, f=None, p=None, live=True): self.v = dict(v or {}); self.f = dict(f or {}); self.p = dict(p or {}); self.live = live
  def copy(self): return Env(self.v, self.f, self.p, self.live)
  def same(self, o): return self.v == o.v and self.f == o.f and self.live == o.live
def joinenv(a, b, cond=None):
  if not a.live: return b
  if not b.live: return a
  e = Env(p={**a.p, **b.p})
  for m, x, y in ((e.v, a.v, b.v), (e.f, a.f, b.f)):
    for k in set(x) | set(y): m[k] = merge(x.get(k), y.get(k), cond) if k in x and k in y else opaque(x.get(k), y.get(k), cond)
  return e

class Flow:
  def __init__(self, F, watch=None): self.F = F; self.watch = watch; self.depth = 0; self.ret = []; self.brk = []
  def run(self, name, scalars, arrays):
    """Env at the end of function `name`, with parameters at these positions bound to these fields."""
    f = self.F.funcs[name]; P = self.F.params(f); e = Env()
    for j, p in enumerate(P):
      if j in scalars: e.v[p.id] = L({scalars[j]: 1})
      elif j in arrays: e.p[p.id] = arrays[j]; e.f.setdefault(arrays[j], L({arrays[j]: 1}))
    self.ret.append([])
    out = self.stmt(self.F.body(f), e.copy())
    ends = self.ret.pop()
    for x, v in ends:
      if v is not None and isconst(v) and v.c.get(None, 0) < 0: continue
      if x.f != e.f: out = joinenv(out, x) if out.live else x
    return out
  # statements
  def stmt(self, n, e):
    if not e.live and n.kind not in ('LabelStmt', 'CaseStmt', 'DefaultStmt', 'CompoundStmt'): return e
    k = n.kind
    if k == 'CompoundStmt':
      for x in n.kids: e = self.stmt(x, e)
      return e
    if k == 'DeclStmt':
      for d in n.kids:
        if d.kind == 'VarDecl':
          init = next((x for x in reversed(d.kids) if x.kind not in ('Empty',)), None)
          if init is None: continue
          b = self.pointer(init, e)
          if b is not None and d.type and '*' in d.type: e.p[d.id] = b; continue
          if init.strip().kind == 'InitListExpr': e.v[d.id] = L(None, frozenset(), True); continue
          e.v[d.id] = self.seen(n, self.ev(init, e))
      return e
    if k == 'IfStmt':
      ks = [x for x in n.kids if x.kind != 'Empty']
      c = self.ev(ks[0], e)
      a = self.stmt(ks[1], e.copy()); b = self.stmt(ks[2], e.copy()) if len(ks) > 2 else e.copy()
      return joinenv(a, b, c)
    if k in ('ForStmt', 'WhileStmt', 'DoStmt'): return self.loop(n, e)
    if k == 'ReturnStmt':
      v = self.ev(n.kids[0], e) if n.kids else None
      if self.ret: self.ret[-1].append((e.copy(), v))
      e.live = False
      return e
    if k in ('BreakStmt', 'ContinueStmt'):
      if self.brk: self.brk[-1].append(e.copy())
      e.live = False
      return e
    if k == 'GotoStmt': e.live = False; return e
    if k in ('LabelStmt', 'CaseStmt', 'DefaultStmt'):
      e.live = True
      for x in n.kids: e = self.stmt(x, e)
      return e
    if k == 'SwitchStmt':
      c = self.ev(n.kids[0], e); self.brk.append([])
      x = self.stmt(n.kids[-1], e.copy()); x = joinenv(x, e, c)
      for y in self.brk.pop(): x = joinenv(x, y, c)
      return x
    if k in ('NullStmt', 'Empty'): return e
    self.ev(n, e)
    return e
  def loop(self, n, e):
    ks = n.kids
    if n.kind == 'ForStmt':
      init, cond, inc, body = ks[0], ks[2], ks[3], ks[4]
      if init.kind != 'Empty': e = self.stmt(init, e)
    elif n.kind == 'WhileStmt': cond, inc, body = ks[0], None, ks[-1]
    else: body, cond, inc = ks[0], ks[1], None
    entry = e.copy()
    for rounds in range(4):
      start = e.copy(); start.f = dict(entry.f)
      c = self.ev(cond, start) if cond.kind != 'Empty' else L()
      self.brk.append([])
      end = self.stmt(body, start.copy())
      for x in self.brk.pop(): end = joinenv(end, x, c)
      if inc is not None and inc.kind != 'Empty' and end.live: self.ev(inc, end)
      nxt = joinenv(e, end, c) if end.live else e
      nxt.p.update(end.p)
      fields = end.f if end.live else start.f
      nf = dict(fields); nxt2 = nxt.copy(); nxt2.f = dict(entry.f)
      if nxt2.v == e.v: e = nxt; e.f = nf; break
      e = nxt2
    else: e.f = nf
    e.live = True
    return e
  # expressions
  def seen(self, n, v):
    if self.watch: self.watch(n, v)
    return v
  def pointer(self, n, e):
    """The array field a pointer expression stands for."""
    n = n.strip()
    if n.kind == 'DeclRefExpr': return e.p.get(n.refid)
    if n.kind == 'UnaryOperator' and n.op == '&': return self.cell(n.kids[0], e)
    if n.kind == 'BinaryOperator' and n.op in ('+', '-'): return self.pointer(n.kids[0], e)
    return None
  def cell(self, n, e):
    n = n.strip()
    if n.kind == 'ArraySubscriptExpr': return self.pointer(n.kids[0], e)
    if n.kind == 'UnaryOperator' and n.op == '*': return self.pointer(n.kids[0], e)
    return None
  def load(self, n, e):
    n = n.strip()
    c = self.cell(n, e)
    if c is not None: return e.f.get(c, L({c: 1}))
    if n.kind == 'DeclRefExpr': return e.v.get(n.refid) or L(None, frozenset(), True)
    return opaque(*[self.ev(k, e) for k in n.kids if k.kind != 'Empty'])
  def store(self, n, v, e):
    n = n.strip()
    c = self.cell(n, e)
    if c is not None: e.f[c] = v; return
    if n.kind == 'DeclRefExpr': e.v[n.refid] = v
    elif n.kind == 'ArraySubscriptExpr':
      b = n.kids[0].strip()
      if b.kind == 'DeclRefExpr': e.v[b.refid] = opaque(e.v.get(b.refid), v, self.ev(n.kids[1], e))
  def ev(self, n, e):
    n = n.strip(); k = n.kind
    if k in ('IntegerLiteral', 'FloatingLiteral'):
      try: x = float(n.value); return L({None: int(x) if x == int(x) else x})
      except (ValueError, TypeError, OverflowError): return L(None, frozenset(), True)
    if k == 'BinaryOperator':
      o = n.op
      if o == '=':
        b = self.pointer(n.kids[1], e); l = n.kids[0].strip()
        if b is not None and l.kind == 'DeclRefExpr': e.p[l.refid] = b; return L(None, frozenset(), True)
        v = self.ev(n.kids[1], e); self.store(n.kids[0], v, e); return self.seen(n, v)
      if o == ',': self.ev(n.kids[0], e); return self.ev(n.kids[1], e)
      a, b = self.ev(n.kids[0], e), self.ev(n.kids[1], e)
      return self.arith(o, a, b)
    if k == 'CompoundAssignOperator':
      a = self.load(n.kids[0], e); b = self.ev(n.kids[1], e)
      v = self.arith(n.op[:-1], a, b); self.store(n.kids[0], v, e); return self.seen(n, v)
    if k == 'UnaryOperator':
      if n.op in ('++', '--'):
        a = self.load(n.kids[0], e); v = add(a, L({None: 1}), 1 if n.op == '++' else -1); self.store(n.kids[0], v, e); return a
      if n.op == '-': return scale(self.ev(n.kids[0], e), -1)
      if n.op == '+': return self.ev(n.kids[0], e)
      if n.op == '*': return self.load(n, e)
      return opaque(*[self.ev(x, e) for x in n.kids])
    if k == 'ConditionalOperator':
      c, a, b = [self.ev(x, e) for x in n.kids[:3]]
      return merge(a, b, c)
    if k in ('DeclRefExpr', 'ArraySubscriptExpr'):
      if k == 'ArraySubscriptExpr' and self.cell(n, e) is None: return opaque(self.load(n.kids[0], e), self.ev(n.kids[1], e))
      return self.load(n, e)
    if k == 'CallExpr': return self.call(n, e)
    return opaque(*[self.ev(x, e) for x in n.kids if x.kind not in ('Empty',)])
  def arith(self, o, a, b):
    if o in '+-' and len(o) == 1: return add(a, b, 1 if o == '+' else -1)
    if o == '*':
      if isconst(a): return scale(b, a.c.get(None, 0))
      if isconst(b): return scale(a, b.c.get(None, 0))
    return opaque(a, b)
  def call(self, n, e):
    name = cast.callee(n); as_ = cast.args(n)
    if name in self.F.funcs and self.depth < 6:
      f = self.F.funcs[name]; P = self.F.params(f); g = Env(f=e.f)
      back = {}
      for p, a in zip(P, as_):
        b = self.pointer(a, e)
        if b is not None: g.p[p.id] = b; continue
        s = a.strip()
        if s.kind == 'UnaryOperator' and s.op == '&' and s.kids[0].strip().kind == 'DeclRefExpr':
          t = s.kids[0].strip().refid; fld = '&%s' % t
          g.p[p.id] = fld; g.f[fld] = e.v.get(t) or L(None, frozenset(), True); back[fld] = t; continue
        g.v[p.id] = self.ev(a, e)
      self.depth += 1; self.ret.append([])
      try: out = self.stmt(self.F.body(f), g.copy())
      finally: self.depth -= 1; ends = self.ret.pop()
      v = None
      res = out if out.live else None
      for x, y in ends:
        if y is not None: v = y if v is None else merge(v, y)
        res = x if res is None else joinenv(res, x)
      if len(ends) > 1 and v is not None and v.x:
        # which return is taken depends on the arguments
        v = L(v.c, v.u | opaque(*g.v.values()).u, True)
      if res is not None:
        for fld, t in back.items(): e.v[t] = res.f.pop(fld, None) or L(None, frozenset(), True)
        e.f = dict(res.f)
      return v or L(None, frozenset(), True)
    vs = [self.ev(a, e) for a in as_]
    for a in as_:
      s = a.strip()
      if s.kind == 'UnaryOperator' and s.op == '&' and s.kids[0].strip().kind == 'DeclRefExpr': e.v[s.kids[0].strip().refid] = opaque(*vs)
    return opaque(*vs)
