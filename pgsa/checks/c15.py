"""C15: calls into native code pass what the routine unpacks, and arrays of the layout and element type its loops assume.

The routines' side is read off the C sources (pgsa/natives.py); on the Python side every call of a native routine is found through
the names it goes by, and the arrays given to it are evaluated abstractly (contiguous or not, element type) along the function."""
import ast
from .. import natives, runner as R
from ..engine import where
from ..load import qualname, src
from ..report import Broken

DT = {'d': 'float64', 'f8': 'float64', 'float': 'float64', 'float64': 'float64', 'double': 'float64', 'f': 'float32', 'f4': 'float32', 'float32': 'float32', 'single': 'float32',
      'i': 'int32', 'i4': 'int32', 'int32': 'int32', 'intc': 'int32', 'l': 'int64', 'i8': 'int64', 'int64': 'int64', 'int': 'int64', 'q': 'int64', 'longlong': 'int64', 'int_': 'int64',
      'i2': 'int16', 'int16': 'int16', 'h': 'int16', 'i1': 'int8', 'int8': 'int8', 'uint8': 'uint8', 'uint16': 'uint16', 'uint32': 'uint32', 'uint64': 'uint64', 'bool': 'bool', 'bool_': 'bool',
      'complex': 'complex128', 'complex64': 'complex64', 'complex128': 'complex128', 'D': 'complex128', 'F': 'complex64', 'c16': 'complex128', 'c8': 'complex64', '?': 'bool'}
NEW = {'empty', 'zeros', 'ones', 'full'}; LIKE = {'empty_like', 'zeros_like', 'ones_like', 'full_like'}
USER = ('user', '')

class V:
  """An abstract value. kind: array, num, str, dtype, seq, func, '?'; c: yes / no / ?; t: set of element types ('?' unknown)."""
  __slots__ = ('kind', 'c', 't', 'x')
  def __init__(self, kind='?', c='?', t=('?',), x=None): self.kind = kind; self.c = c; self.t = frozenset(t); self.x = x
  def key(self): return (self.kind, self.c, self.t, repr(self.x) if self.kind in ('str', 'dtype') else (tuple(e.key() for e in self.x) if self.kind == 'seq' and isinstance(self.x, tuple) else self.x.key() if isinstance(self.x, V) else id(self.x)))
U = V()
def arr(c='?', t=('?',)): return V('array', c, t)

def join(a, b):
  if a is b or a.key() == b.key(): return a
  if a.kind == b.kind == 'array' or {a.kind, b.kind} == {'array', '?'}:
    c = a.c if a.c == b.c else ('no' if 'no' in (a.c, b.c) else '?')
    return V('array' if a.kind == b.kind else '?', c, a.t | b.t)
  if a.kind == b.kind == 'seq' and isinstance(a.x, tuple) and isinstance(b.x, tuple) and len(a.x) == len(b.x): return V('seq', x=tuple(join(p, q) for p, q in zip(a.x, b.x)))
  if a.kind == b.kind and a.kind in ('seq', 'gen') and isinstance(a.x, V) and isinstance(b.x, V): return V(a.kind, x=join(a.x, b.x))
  if {a.kind, b.kind} in ({'dtype'}, {'dtype', '?'}): return V('dtype', t=a.t | b.t)
  if a.kind == b.kind == 'num': return V('num')
  return U

def scope(n):
  """The function an import is in, or None."""
  p = getattr(n, '_parent', None)
  while p is not None and not isinstance(p, ast.FunctionDef): p = p._parent
  return p

class Scoped:
  """What names stand for, by the function they are imported in."""
  def __init__(self): self.d = {}
  def put(self, sc, k, v): self.d.setdefault(k, {})[sc] = v
  def see(self, e, k):
    d = self.d.get(k)
    if not d: return None
    p = e
    while p is not None:
      if isinstance(p, ast.FunctionDef) and p in d: return d[p]
      p = getattr(p, '_parent', None)
    return d.get(None)

class Mods:
  """The names of native routines, and the functions of the package, as each module sees them."""
  def __init__(self, prog, srcs):
    self.prog = prog
    self.by = {s.module: s for s in srcs if s.module}
    self.alias = Scoped()   # (module name, name) -> native module
    self.names = Scoped()   # (module name, name) -> native routine or in-package function
    self.funcs = {}
    for mn, m in prog.modules.items():
      for n in m.tree.body:
        if isinstance(n, ast.FunctionDef): self.funcs[mn, n.name] = n
    self.classattr = {}  # (module, attribute) -> set of natives
    for mn, m in prog.modules.items():
      pkg = mn if m.rel.endswith('__init__.py') else mn.rsplit('.', 1)[0]
      for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
          base = n.module or ''
          if n.level:
            b = pkg.split('.'); b = b[:len(b) - n.level + 1]; base = '.'.join(b + ([n.module] if n.module else []))
          sc = scope(n)
          for a in n.names:
            full = base + '.' + a.name; nm = a.asname or a.name
            if full in self.by: self.alias.put(sc, (mn, nm), self.by[full])
            elif base in self.by: self.names.put(sc, (mn, nm), (self.by[base], a.name))
            elif (base, a.name) in self.funcs: self.names.put(sc, (mn, nm), self.funcs[base, a.name])
        elif isinstance(n, ast.Import):
          for a in n.names:
            if a.name in self.by and a.asname: self.alias.put(scope(n), (mn, a.asname), self.by[a.name])
    for mn, m in prog.modules.items():
      for c in ast.walk(m.tree):
        if isinstance(c, ast.ClassDef):
          for s in c.body:
            if isinstance(s, ast.Assign):
              v = s.value
              if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'staticmethod' and v.args: v = v.args[0]
              r = self.ref(mn, v)
              if r:
                for t in s.targets:
                  if isinstance(t, ast.Name): self.classattr.setdefault((mn, t.id), set()).add(r)
  def ref(self, mn, e):
    """(native module, routine name) that an expression names."""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
      S = self.alias.see(e, (mn, e.value.id))
      if S is not None: return (S, e.attr)
    if isinstance(e, ast.Name) and isinstance(self.names.see(e, (mn, e.id)), tuple): return self.names.see(e, (mn, e.id))
    # pygeode.toolscore.map_to
    if isinstance(e, ast.Attribute):
      d = src(e.value)
      if d in self.by: return (self.by[d], e.attr)

class Fn:
  """A call target: a set of native routines, or those whose name is a prefix and the element type of a value."""
  def __init__(self, refs, of=None): self.refs = refs; self.of = of

class Walk:
  def __init__(self, mods, f, params=None, depth=0, out=None):
    self.m = mods; self.f = f; self.mn = f._mod.name; self.depth = depth; self.hits = out; self.rets = []
    self.env = dict(params or {}); self.fresh = 0
    if params is None: self.env = {}
  def run(self):
    a = self.f.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
      if p.arg not in self.env: self.env[p.arg] = self.m.param(self.f, p.arg) if self.depth == 0 else U
    self.block(self.f.body if isinstance(self.f.body, list) else [])
    return self
  def block(self, ss):
    for s in ss: self.stmt(s)
  def jenv(self, a, b):
    out = {}
    for k in set(a) | set(b): out[k] = join(a[k], b[k]) if k in a and k in b else (a.get(k) or b.get(k))
    return out
  def bind(self, t, v):
    if isinstance(t, ast.Name): self.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      star = any(isinstance(e, ast.Starred) for e in t.elts)
      if v.kind == 'seq' and isinstance(v.x, tuple) and len(v.x) == len(t.elts) and not star:
        for e, w in zip(t.elts, v.x): self.bind(e, w)
      elif v.kind == 'seq' and isinstance(v.x, V):
        for e in t.elts: self.bind(e.value if isinstance(e, ast.Starred) else e, V('seq', x=v.x) if isinstance(e, ast.Starred) else v.x)
      else:
        for e in t.elts: self.bind(e.value if isinstance(e, ast.Starred) else e, U)
    elif isinstance(t, ast.Starred): self.bind(t.value, U)
    elif isinstance(t, (ast.Subscript, ast.Attribute)): self.ev(t.value)
  def loop(self, target, it, body, orelse):
    for _ in range(3):
      before = dict(self.env)
      if target is not None: self.bind(target, self.element(it))
      self.block(body)
      self.env = self.jenv(before, self.env)
    self.block(orelse)
  def element(self, v):
    if v.kind == 'seq':
      if isinstance(v.x, V): return v.x
      if isinstance(v.x, tuple) and v.x:
        r = v.x[0]
        for w in v.x[1:]: r = join(r, w)
        return r
    if v.kind == 'gen': return v.x
    return U
  def stmt(self, s):
    if isinstance(s, ast.Assign):
      v = self.ev(s.value)
      for t in s.targets: self.bind(t, v)
    elif isinstance(s, ast.AnnAssign):
      if s.value is not None: self.bind(s.target, self.ev(s.value))
    elif isinstance(s, ast.AugAssign):
      self.ev(s.value)
      if isinstance(s.target, ast.Name) and s.target.id in self.env and self.env[s.target.id].kind != 'array': self.env[s.target.id] = U
    elif isinstance(s, ast.Expr): self.ev(s.value)
    elif isinstance(s, ast.Return):
      self.rets.append(self.ev(s.value) if s.value is not None else V('none'))
    elif isinstance(s, ast.If):
      self.ev(s.test); self.asked(s.test); a = dict(self.env)
      self.refine(s.test, True); self.block(s.body); b = self.env; self.env = a; self.refine(s.test, False); self.block(s.orelse)
      end = lambda ss: ss and isinstance(ss[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
      if end(s.body) and not end(s.orelse): pass
      elif end(s.orelse) and not end(s.body): self.env = b
      else: self.env = self.jenv(b, self.env)
    elif isinstance(s, (ast.For, ast.AsyncFor)): self.loop(s.target, self.ev(s.iter), s.body, s.orelse)
    elif isinstance(s, ast.While): self.ev(s.test); self.loop(None, None, s.body, s.orelse)
    elif isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        v = self.ev(i.context_expr)
        if i.optional_vars is not None: self.bind(i.optional_vars, U)
      self.block(s.body)
    elif isinstance(s, ast.Try):
      before = dict(self.env); self.block(s.body); self.block(s.orelse); after = self.env
      for h in s.handlers:
        self.env = self.jenv(before, after)
        self.block(h.body)
        if not (h.body and isinstance(h.body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break))): after = self.jenv(after, self.env)
      self.env = after; self.block(s.finalbody)
    elif isinstance(s, ast.Assert): self.ev(s.test); self.asked(s.test); self.refine(s.test, True)
    elif isinstance(s, ast.FunctionDef):
      self.env[s.name] = V('func', x=s)
      Walk(self.m, s, {p.arg: U for p in s.args.args}, 1, self.hits).runin(dict(self.env)) if self.hits is not None and not self.called(s) else None
    elif isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Name): self.env.pop(t.id, None)
    elif isinstance(s, (ast.Raise,)):
      if s.exc is not None: self.ev(s.exc)
  def called(self, g):
    """A function defined here and called here is walked at its calls."""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == g.name for n in ast.walk(self.f))
  def runin(self, env):
    env.update(self.env); self.env = env
    self.block(self.f.body)
    return self
  def asked(self, e):
    """A test of an array's layout or element type: what follows depends on the answer, and is not decided."""
    for n in ast.walk(e):
      if not isinstance(n, ast.Attribute): continue
      if isinstance(n.value, ast.Name) and self.env.get(n.value.id, U).kind == 'array':
        v = self.env[n.value.id]
        if n.attr in ('flags', 'strides'): self.env[n.value.id] = V('array', 'yes' if v.c == 'yes' else '?', v.t)
        elif n.attr == 'dtype' and not all(isinstance(x, str) for x in v.t): self.env[n.value.id] = V('array', v.c, ('?',) if any(isinstance(x, tuple) and x[0] != 'nat' for x in v.t) else v.t)
    for c in ast.walk(e):
      if isinstance(c, ast.Call) and src(c.func).split('.')[-1] in ('isfortran', 'iscontiguous', 'is_contiguous'):
        for a in c.args:
          if isinstance(a, ast.Name) and self.env.get(a.id, U).kind == 'array': self.env[a.id] = V('array', '?', self.env[a.id].t)
  def refine(self, e, yes):
    """What a test that holds (or fails) says of element types: x.dtype.name == 'int32'."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return self.refine(e.operand, not yes)
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And if yes else ast.Or):
      for v in e.values: self.refine(v, yes)
      return
    if not isinstance(e, ast.Compare): return
    if not all(isinstance(o, ast.Eq if yes else ast.NotEq) for o in e.ops): return
    es = [e.left] + e.comparators
    if not yes and len(es) != 2: return
    lit = [self.dtype(x) for x in es if isinstance(x, ast.Constant) or (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ('np', 'numpy'))]
    if len(lit) != 1 or not lit[0]: return
    for x in es:
      if isinstance(x, ast.Attribute) and x.attr in ('name', 'char'): x = x.value
      if isinstance(x, ast.Attribute) and x.attr == 'dtype' and isinstance(x.value, ast.Name):
        v = self.env.get(x.value.id, U); self.env[x.value.id] = V('array', v.c, lit[0])
  # dtypes
  def dtype(self, e):
    """Set of element types an expression used as a dtype denotes."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
      s = e.value
      if s[:1] in '<=|': return {DT.get(s[1:], '?')}
      if s[:1] in '>!' and len(s) > 1: return {('swapped', DT.get(s[1:], '?'))}
      return {DT.get(s, '?')}
    if isinstance(e, ast.Name) and e.id in ('float', 'int', 'complex', 'bool') and e.id not in self.env: return {DT[e.id]}
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('np', 'numpy'): return {DT.get(e.attr, '?')}
    v = self.ev(e)
    if v.kind == 'str': return self.dtype(ast.Constant(v.x))
    if v.kind == 'dtype': return set(v.t)
    return {'?'}
  def dt(self, call, pos, default):
    e = next((k.value for k in call.keywords if k.arg == 'dtype'), None)
    if e is None and len(call.args) > pos and not any(isinstance(a, ast.Starred) for a in call.args): e = call.args[pos]
    if e is None or (isinstance(e, ast.Constant) and e.value is None): return default
    return self.dtype(e)
  # expressions
  def ev(self, e):
    k = e.__class__.__name__
    g = getattr(self, 'ev_' + k, None)
    if g is not None: return g(e)
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr): self.ev(c)
    return U
  def ev_Constant(self, e):
    if isinstance(e.value, str): return V('str', x=e.value)
    if isinstance(e.value, (int, float)) and not isinstance(e.value, bool): return V('num')
    return U
  def ev_Name(self, e):
    if e.id in self.env: return self.env[e.id]
    g = self.m.names.see(e, (self.mn, e.id)) or self.m.funcs.get((self.mn, e.id))
    if isinstance(g, ast.FunctionDef): return V('func', x=g)
    r = self.m.ref(self.mn, e)
    if r: return V('native', x=Fn([r]))
    return U
  def ev_Tuple(self, e):
    vs = [self.ev(x) for x in e.elts]
    return V('seq', x=tuple(vs)) if not any(isinstance(x, ast.Starred) for x in e.elts) else U
  ev_List = ev_Tuple
  def ev_Lambda(self, e): return V('func', x=e)
  def ev_IfExp(self, e): self.ev(e.test); self.asked(e.test); return join(self.ev(e.body), self.ev(e.orelse))
  def ev_NamedExpr(self, e): v = self.ev(e.value); self.bind(e.target, v); return v
  def comp(self, e):
    keep = dict(self.env)
    for g in e.generators:
      self.bind(g.target, self.element(self.ev(g.iter)))
      for i in g.ifs: self.ev(i)
    v = self.ev(e.elt); self.env = keep
    return V('seq', x=v)
  ev_ListComp = comp; ev_GeneratorExp = comp
  def ev_Yield(self, e): self.rets.append(V('gen', x=self.ev(e.value) if e.value is not None else U)); return U
  def ev_Attribute(self, e):
    r = self.m.ref(self.mn, e)
    if r and not (isinstance(e.value, ast.Name) and e.value.id in self.env): return V('native', x=Fn([r]))
    if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and (self.mn, e.attr) in self.m.classattr: return V('native', x=Fn(sorted(self.m.classattr[self.mn, e.attr], key=repr)))
    v = self.ev(e.value)
    if e.attr == 'dtype' and v.kind == 'array': return V('dtype', t=v.t)
    if e.attr == 'dtype' and v.kind == '?' and not (isinstance(e.value, ast.Name) and e.value.id == 'self') and 'var' in src(e.value).split('.')[-1].lower(): return V('dtype', t=(USER,))   # of a variable of the user's
    if e.attr in ('name', 'char') and v.kind == 'dtype': return V('dtype', t={('nat', x[1]) if isinstance(x, tuple) and x[0] == 'user' else x for x in v.t}, x='name')
    if e.attr == 'T': return arr('no', v.t) if v.kind == 'array' else arr('no')
    if e.attr == 'real' and v.kind == 'array': return arr('?', ('?',))
    if e.attr == 'values' and v.kind == '?': return arr('no', (USER,))
    if e.attr in ('size', 'ndim', 'itemsize'): return V('num') if v.kind == 'array' else U
    return U
  def ev_Subscript(self, e):
    v = self.ev(e.value); self.ev(e.slice)
    if v.kind == 'seq' and isinstance(v.x, V): return v.x if not isinstance(e.slice, ast.Slice) else v
    if v.kind == 'seq' and isinstance(v.x, tuple) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v.x) <= e.slice.value < len(v.x): return v.x[e.slice.value]
    if v.kind == '?' and isinstance(e.slice, ast.Tuple) and any(isinstance(i, ast.Slice) for i in e.slice.elts): v = arr('?')    # only arrays are indexed this way
    if v.kind != 'array': return U
    ix = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
    full = lambda i: (isinstance(i, ast.Slice) and i.lower is None and i.upper is None and i.step is None) or (isinstance(i, ast.Constant) and i.value is Ellipsis)
    ix = list(ix)
    while ix and full(ix[-1]): ix.pop()
    if not ix: return v
    if len(ix) == 1 and not full(ix[0]):
      i = ix[0]
      if isinstance(i, ast.Slice): return V('array', v.c if i.step is None else ('no' if not (isinstance(i.step, ast.Constant) and i.step.value == 1) else v.c), v.t)
      return V('array', v.c, v.t)
    if any(isinstance(i, ast.Slice) for i in ix) or full(ix[0]): return V('array', 'no', v.t)
    return V('array', '?', v.t)
  def ev_BinOp(self, e):
    a = self.ev(e.left); b = self.ev(e.right)
    if a.kind == b.kind == 'num': return V('num')
    if 'array' in (a.kind, b.kind):
      cs = [x.c for x in (a, b) if x.kind == 'array']; rest = [x for x in (a, b) if x.kind != 'array']
      ok = all(x.kind == 'num' for x in rest)
      t = ('?',)
      if len(cs) == 1 and ok:      # an operation with a number gives the machine's own byte order
        t = {('nat', x[1]) if isinstance(x, tuple) and x[0] in ('user', 'nat') else '?' for x in (a if a.kind == 'array' else b).t}
      return arr('yes' if ok and all(c == 'yes' for c in cs) else 'no' if ok and 'no' in cs else '?', t)
    return U
  def ev_UnaryOp(self, e):
    v = self.ev(e.operand)
    return v if v.kind in ('array', 'num') and not isinstance(e.op, ast.Not) else U
  def ev_Call(self, e):
    args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
    kw = {k.arg: self.ev(k.value) for k in e.keywords}
    f = e.func
    a0 = args[0] if args else U
    order = next((k.value.value for k in e.keywords if k.arg == 'order' and isinstance(k.value, ast.Constant)), None)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') and f.value.id not in self.env:
      n = f.attr
      src_t = a0.t if a0.kind == 'array' else ('?',)
      if n in NEW: return arr('no' if order in ('F',) else 'yes' if order in (None, 'C') else '?', self.dt(e, 2 if n == 'full' else 1, {'float64'} if n != 'full' else {'?'}))
      if n in LIKE: return arr('yes' if order == 'C' else a0.c if a0.kind == 'array' else '?', self.dt(e, 2 if n == 'full_like' else 1, src_t))
      if n == 'ascontiguousarray': return arr('yes', self.dt(e, 1, src_t))
      if n == 'asfortranarray': return arr('no', self.dt(e, 1, src_t))
      if n == 'require':
        req = src(e.args[2]) if len(e.args) > 2 else ' '.join(src(k.value) for k in e.keywords if k.arg == 'requirements')
        return arr('yes' if "'C" in req else 'no' if "'F" in req else '?', self.dt(e, 1, src_t))
      if n in ('array', 'asarray', 'asanyarray'):
        c = 'yes' if order == 'C' or a0.kind == 'seq' else 'no' if order == 'F' else a0.c if a0.kind == 'array' else '?'
        return arr(c, self.dt(e, 1, src_t))
      if n in ('arange', 'linspace'): return arr('yes', self.dt(e, 99, {'?'} if n == 'arange' else {'float64'}))
      if n in ('transpose', 'swapaxes', 'moveaxis', 'rollaxis'): return arr('no', src_t)
      if n in ('repeat', 'argsort'): return arr('yes', src_t if n == 'repeat' else {'int64'})
      if n == 'dtype' and e.args: return V('dtype', t=self.dtype(e.args[0]))
      if n in ('int32', 'int64', 'float64', 'float32') and a0.kind == 'num': return V('num')
      if n in ('vstack', 'hstack', 'concatenate', 'stack', 'dot', 'round', 'abs', 'where', 'squeeze', 'broadcast_to'): return arr('no' if n == 'broadcast_to' else '?')
      return U
    if isinstance(f, ast.Name) and f.id not in self.env:
      if f.id == 'len': return V('num')
      if f.id in ('int', 'float'): return V('num')
      if f.id == 'str': return V('str?')
      if f.id in ('list', 'tuple') and args: return a0 if a0.kind == 'seq' else U
      if f.id == 'getattr' and len(e.args) >= 2: return self.getattr(e, args)
    if isinstance(f, ast.Attribute):
      v = self.ev(f.value)
      if v.kind == 'array':
        if f.attr == 'astype': return arr('yes' if order == 'C' else 'no' if order == 'F' else v.c, self.dt(e, 0, {'?'}))
        if f.attr == 'copy': return arr('yes' if order in (None, 'C') and not e.args else '?', v.t)
        if f.attr in ('reshape', 'ravel', 'flatten', 'squeeze'): return arr('yes' if v.c == 'yes' or (f.attr == 'flatten' and not e.args) else '?', v.t)
        if f.attr in ('transpose', 'swapaxes'): return arr('no', v.t)
        if f.attr == 'byteswap': return arr(v.c, ('?',))
        return U
      if v.kind == 'dtype' and f.attr == 'newbyteorder' and e.args and isinstance(e.args[0], ast.Constant):
        if e.args[0].value in ('=', 'N', 'n', 'native'): return V('dtype', t={('nat', x[1]) if isinstance(x, tuple) and x[0] == 'user' else x[1] if isinstance(x, tuple) and x[0] == 'swapped' else x for x in v.t})
        return V('dtype', t=('?',))
      if f.attr in ('rand', 'randn', 'random_sample', 'standard_normal') and v.kind == '?': return arr('yes', {'float64'})
      if f.attr == 'get' and e.args and v.kind == '?' and not isinstance(e.args[0], ast.Constant) and self.data(f.value, e): return arr('no', (USER,))
    v = self.ev(f) if not isinstance(f, ast.Attribute) else self.ev_Attribute(f)
    if v.kind == 'native': self.native(e, v.x, args, kw); return U
    if v.kind == 'func': return self.call(v.x, e, args, kw)
    return U
  def data(self, base, e):
    """view.get(var): what is read of a variable of the user's (and not dictionary.get(key))."""
    return isinstance(base, (ast.Name, ast.Call, ast.Attribute)) and 'view' in src(base).lower() or (isinstance(base, ast.Name) and base.id in ('inv', 'outv'))
  def getattr(self, e, args):
    b = e.args[0]
    S = self.m.alias.see(e, (self.mn, b.id)) if isinstance(b, ast.Name) and b.id not in self.env else None; n = e.args[1]
    if S is None: return U
    if isinstance(n, ast.Constant) and isinstance(n.value, str): return V('native', x=Fn([(S, n.value)]))
    pre = of = None
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add): pre, of = self.ev(n.left), self.ev(n.right)
    elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and str(n.left.value).endswith('%s') and str(n.left.value).count('%') == 1:
      pre = V('str', x=n.left.value[:-2]); of = self.ev(n.right)
    elif isinstance(n, ast.JoinedStr) and len(n.values) == 2 and isinstance(n.values[0], ast.Constant) and isinstance(n.values[1], ast.FormattedValue):
      pre = V('str', x=n.values[0].value); of = self.ev(n.values[1].value)
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and str(n.func.value.value).endswith('{}') and len(n.args) == 1:
      pre = V('str', x=n.func.value.value[:-2]); of = self.ev(n.args[0])
    if pre is None or pre.kind != 'str': return U
    refs = [(S, x) for x in S.natives if x.startswith(pre.x) and x[len(pre.x):] in natives.SIZE]
    return V('native', x=Fn(refs, of.t if of.kind == 'dtype' else frozenset(['?']))) if refs else U
  def call(self, g, e, args, kw):
    if self.depth > 3: return U
    if any(isinstance(a, ast.Starred) for a in e.args) or None in kw: return U
    ps = [p.arg for p in g.args.posonlyargs + g.args.args]
    env = {p: U for p in ps + [p.arg for p in g.args.kwonlyargs]}
    env.update(zip(ps, args)); env.update({k: v for k, v in kw.items() if k in env})
    if g.args.defaults:
      for p, d in zip(ps[len(ps) - len(g.args.defaults):], g.args.defaults):
        if env[p] is U and isinstance(d, ast.Constant): env[p] = self.ev_Constant(d)
    if isinstance(g, ast.Lambda):
      w = Walk(self.m, self.f, None, self.depth + 1, self.hits); w.env = dict(self.env); w.env.update(env)
      return w.ev(g.body)
    nested = not isinstance(g._parent, (ast.Module, ast.ClassDef)) and g in list(ast.walk(self.f))
    w = Walk(self.m, g, env, self.depth + 1, self.hits if nested or self.m.relevant(g) else None)
    if nested: w.runin(dict(self.env))
    else: w.run()
    if not w.rets: return U
    r = w.rets[0]
    for x in w.rets[1:]: r = join(r, x)
    return r
  def native(self, e, fn, args, kw):
    if self.hits is None: return
    self.hits.append((self.f, e, fn, args, kw))

def has_native(mods, f):
  mn = f._mod.name
  for n in ast.walk(f):
    if isinstance(n, (ast.Attribute, ast.Name)) and mods.ref(mn, n): return True
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') and (mn, n.attr) in mods.classattr: return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and n.args and isinstance(n.args[0], ast.Name) and mods.alias.see(n, (mn, n.args[0].id)) is not None: return True
  return False

def fq(f): return '%s.%s' % (f._mod.name, qualname(f))

def run(rep):
  eng = R.engine(); prog = eng.prog
  srcs = natives.sources(prog.repo)
  mods = Mods(prog, srcs)
  nn = 0; parsed = 0
  for s in srcs:
    nn += len(s.natives); parsed += s.parsed
    for rule, nt, fn, text, node in s.problems:
      rep.add(rule, '%s|%s' % (s.rel, fn), '%s.%s: %s' % (s.module, nt.name, text), '%s:%s' % (s.rel, node.line))
    for f, nm, t, e, node in s.made():
      if not natives.SAME(t, e): rep.add('element type', '%s|%s|%s' % (s.rel, f.name, nm), '%s in %s holds %s values and is read as %s' % (nm, f.name, t, e), '%s:%s' % (s.rel, node.line))
    for nm, nt in s.natives.items():
      if nt.args:
        suf = [d for d in natives.SIZE if nm.endswith('_' + d)]
        base = nm[:-len(suf[0]) - 1] if suf else None
        if suf:
          sib = [m for k, m in s.natives.items() if k.startswith(base + '_') and k[len(base) + 1:] in natives.SIZE and m.args and len(m.args) == len(nt.args)]
          for i, A in enumerate(nt.args):
            es = {m.name: m.args[i].elem for m in sib}
            if A.elem and len(set(es.values())) > 2 and not natives.SAME(A.elem, suf[0]):
              rep.add('element type', '%s|%s|%d' % (s.rel, nm, i + 1), '%s reads its array %d as %s' % (nm, i + 1, A.elem), '%s:%s' % (s.rel, nt.line))
  # functions that call native routines
  rel = {}
  allf = [f for _, _, f in prog.functions()]
  direct = [f for f in allf if has_native(mods, f)]
  mods.relevant = lambda g: g in direct_set
  direct_set = set(direct)
  # what in-package callers pass for a parameter
  byname = {}
  for f in allf:
    for n in ast.walk(f):
      if isinstance(n, ast.Call):
        nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
        if nm: byname.setdefault(nm, []).append((f, n))
  memo = {}
  def param(f, p):
    k = (f, p)
    if k in memo: return memo[k]
    memo[k] = U
    top = isinstance(f._parent, ast.Module)
    ps = [a.arg for a in f.args.posonlyargs + f.args.args]
    if not top or p not in ps: return U
    sites = [(g, n) for g, n in byname.get(f.name, []) if g is not f and mods.ev_target(g, n) is f]
    r = None
    for g, n in sites:
      w = Seek(mods, g, n); v = w.arg(ps.index(p), p)
      r = v if r is None else join(r, v)
    if r is None: return U
    # a parameter that may hold the user's own type is one type for the whole of the function
    if r.kind == 'array' and USER in r.t: r = V('array', r.c, (('user', p),))
    elif r.kind == 'array' and all(isinstance(x, tuple) and x[0] in ('user', 'nat') for x in r.t): r = V('array', r.c, (('nat', p),))
    memo[k] = r
    return r
  mods.param = param
  def ev_target(g, n):
    v = Walk(mods, g, {}, 9).ev(n.func) if isinstance(n.func, ast.Name) else U
    return v.x if v.kind == 'func' else None
  mods.ev_target = ev_target
  sites = set(); obl = 0; decided = 0; und = {}
  res = {}
  for f in direct:
    if any(isinstance(p, ast.FunctionDef) for p in parents(f)): continue
    hits = []
    w = Walk(mods, f, None, 0, hits)
    w.run()
    for g, e, fn, args, kw in hits: res.setdefault(e, []).append((g, fn, args, kw))
  # module level
  for e, hs in res.items():
    for g, fn, args, kw in hs:
      star = any(isinstance(a, ast.Starred) for a in e.args)
      at = where(e)
      for S, nm in fn.refs:
        sites.add(e)
        nt = S.natives.get(nm)
        if nt is None:
          rep.add('no routine', '%s|%s' % (fq(g), nm), '%s calls %s.%s, which does not exist' % (fq(g), S.module, nm), at); continue
        if nt.args is None: und['format of %s' % nt] = 1; continue
        if kw: rep.add('keywords', '%s|%s' % (fq(g), nm), '%s gives %s keyword arguments, which it does not take' % (fq(g), nt), at); continue
        if star: und['number of arguments of %s in %s' % (nt, fq(g))] = 1; continue
        most = len(nt.args); least = sum(not a.opt for a in nt.args); obl += 1
        if not least <= len(args) <= most:
          rep.add('argument count', '%s|%s' % (fq(g), nm), '%s gives %s %d arguments, and it unpacks %d' % (fq(g), nt, len(args), most), at); continue
        for i, (A, v, x) in enumerate(zip(nt.args, args, e.args)):
          obl += 1
          key = '%s|%s|%d' % (fq(g), nm if fn.of is None else nm.rsplit('_', 1)[0], i + 1)
          if A.kind == 'number' and v.kind in ('array', 'str', 'seq') or A.kind in ('array', 'string') and v.kind == 'num' or A.kind == 'array' and v.kind in ('str', 'seq') or A.kind == 'string' and v.kind in ('array', 'seq'):
            if not (A.kind == 'number' and v.kind == 'array'):
              rep.add('argument kind', key, '%s gives %s for argument %d of %s, which is to be a%s' % (fq(g), src(x, 40), i + 1, nt, {'number': ' number', 'array': 'n array', 'string': ' string'}[A.kind]), at); continue
            if v.c == 'yes' or '?' not in v.t:
              # an array of several values is no number; a 0-d one would be
              if whole(x, v): rep.add('argument kind', key, '%s gives the array %s for argument %d of %s, which is to be a number' % (fq(g), src(x, 40), i + 1, nt), at); continue
          if A.kind != 'array': decided += 1; continue
          if v.c == 'no': rep.add('layout', key, '%s passes %s to %s as it comes, and nothing makes it contiguous' % (fq(g), src(x, 40), nt), at); continue
          bad = None
          if A.elem:
            for t in v.t:
              if t == '?': continue
              if isinstance(t, tuple):
                if t[0] == 'swapped': bad = 'is in the other byte order'
                elif fn.of is not None and varies(S, nt, i):
                  if t[0] == 'user': bad = 'may be in the other byte order'
                  elif t[1] and ('nat', t[1]) not in fn.of and '?' not in fn.of and any(isinstance(o, tuple) for o in fn.of): bad = 'has an element type of its own'
                else: bad = 'has whatever element type it comes with'
              elif fn.of is not None and varies(S, nt, i):
                if any(isinstance(o, tuple) for o in fn.of) and '?' not in fn.of: bad = 'always holds %s values' % t
                elif fn.of == frozenset([nm.rsplit('_', 1)[1]]) and not natives.SAME(t, A.elem): bad = 'holds %s values' % t
              elif not natives.SAME(t, A.elem): bad = 'holds %s values' % t
          if bad:
            rep.add('array type', key, '%s passes %s to %s, which reads %s values, and it %s' % (fq(g), src(x, 40), nt, A.elem, bad), at); continue
          if v.c == '?' or '?' in v.t or A.elem is None: und['array %d (%s) of %s in %s' % (i + 1, src(x, 30), nt, fq(g))] = 1
          else: decided += 1
  rep.coverage['native_routines'] = nn
  rep.coverage['formats_read'] = parsed
  rep.coverage['call_sites'] = len(sites)
  rep.coverage['arguments_decided'] = decided
  rep.coverage['undecided'] = sorted(und)
  rep.obligations = obl + parsed + sum(s.reads for s in srcs)
  rep.floor('native_routines', nn, 20); rep.floor('formats_read', parsed, 15); rep.floor('call_sites', len(sites), 10)
  rep.explanation = ('%d native routines in %d C sources, %d argument formats read; %d call sites in Python resolved through imports, class attributes, getattr and helper functions; '
                     'rules: format fits the variables it fills; number and kind of arguments; arrays contiguous and of the element type the C reads' % (nn, len(srcs), parsed, len(sites)))
  rep.assumptions = ['arrays whose layout or element type the evaluation cannot settle are listed as undecided, not reported', 'reads of user variables (view.get(var), .values) may have any layout and element type']

def whole(x, v): return isinstance(x, ast.Name) and v.c == 'yes'

def varies(S, nt, i):
  base = nt.name.rsplit('_', 1)[0]
  return len({m.args[i].elem for k, m in S.natives.items() if k.rsplit('_', 1)[0] == base and m.args and len(m.args) > i}) > 1

def parents(n):
  p = getattr(n, '_parent', None)
  while p is not None: yield p; p = getattr(p, '_parent', None)

class Seek:
  """The values given at one call, found by walking the function that holds it."""
  memo = {}
  def __init__(self, mods, g, call): self.mods = mods; self.g = g; self.callnode = call
  def arg(self, i, p):
    c = self.callnode
    if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords): return U
    e = c.args[i] if i < len(c.args) else next((k.value for k in c.keywords if k.arg == p), None)
    if e is None: return U
    top = self.g
    for q in parents(self.g):
      if isinstance(q, ast.FunctionDef): top = q
    vals = []
    class W(Walk):
      def ev_Call(s, n):
        if n is c: vals.append(s.ev(e))
        return Walk.ev_Call(s, n)
    w = W(self.mods, top, {q.arg: U for q in top.args.posonlyargs + top.args.args + top.args.kwonlyargs}, 1, None)
    w.run()
    if not vals: return U
    r = vals[0]
    for v in vals[1:]: r = join(r, v)
    return r
