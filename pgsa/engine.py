"""Heap-based, flow-sensitive abstract interpreter for the package's Python code.

Nothing of the package is executed.  Module bodies, class bodies and functions are interpreted over
abstract values: points-to sets of abstract objects (allocation site x calling context, or symbolic
objects standing for what a caller passes in), dependency labels and, where every path computes the
same expression, a value-number term.  Calls to functions of the package are inlined up to a bound;
anything the interpreter does not understand evaluates to an unknown value carrying its arguments'
labels, so that ignorance never creates a finding."""
import ast, builtins
import numpy as _np
from .load import Program, qualname, where, src

# Switchable monkey patches and command line tools, not part of the library as imported.
SKIP_MODULES = ('pygeode.options.', 'pygeode.plugins.', 'pygeode.utils.')
# Builds example data while it is imported: its body is not unfolded, only its definitions.
LAZY_MODULES = ('pygeode.tutorial',)

MAXDEPTH = 22
MAXTERM = 40

class Obj(complex):
  # hashed by its number (natively, as a complex number), so that sets of objects iterate the same way in every run
  __slots__ = ('kind', 'key', 'info', 'n')
  def __new__(cls, kind, key, info, n):
    o = complex.__new__(cls, n)
    o.kind, o.key, o.info, o.n = kind, key, info, n
    return o
  def __repr__(self):
    k = self.kind
    if k == 'sym': return '<%s:%s>' % (self.info['path'], self.info['type'])
    if k == 'const': return repr(self.info['value'])
    if k in ('func',): return 'func %s' % self.info['qual']
    if k in ('class',): return 'class %s' % self.info['name']
    if k == 'ext': return 'ext %s' % self.info['name']
    if k == 'inst': return 'inst(%s)' % self.info['cls'].info['name']
    return '%s#%d' % (k, self.n)

E = frozenset()

class AV:
  __slots__ = ('objs', 'labs', 'term')
  def __init__(self, objs=E, labs=E, term=None):
    self.objs, self.labs, self.term = objs, labs, term
  def __repr__(self): return 'AV(%s%s)' % (','.join(sorted(map(repr, self.objs))[:6]), (' | ' + ','.join(sorted(self.labs)[:6])) if self.labs else '')
  def withlabs(self, labs):
    if not labs or labs <= self.labs: return self
    return AV(self.objs, self.labs | labs, self.term)
  def noterm(self): return AV(self.objs, self.labs, None)
  def withterm(self, t): return AV(self.objs, self.labs, t)
  def __eq__(self, o): return isinstance(o, AV) and self.objs == o.objs and self.labs == o.labs and self.term == o.term
  def __hash__(self): return hash((self.objs, self.labs))

NOTHING = AV()

def join(a, b):
  if a is b or b is None: return a
  if a is None: return b
  if a.objs == b.objs and a.labs == b.labs and a.term == b.term: return a
  return AV(a.objs | b.objs, a.labs | b.labs, a.term if a.term == b.term else None)

def joinall(avs):
  r = None
  for a in avs: r = a if r is None else join(r, a)
  return r if r is not None else NOTHING

class Layer:
  __slots__ = ('d', 'up')
  def __init__(self, d, up): self.d, self.up = d, up

class Heap:
  """Mapping from objects to their fields, as a stack of frozen layers under a writable one, so that
  copies are cheap and two heaps are compared and merged by what they changed since they parted."""
  __slots__ = ('d', 'up')
  def __init__(self, d=None, up=None): self.d = d if d is not None else {}; self.up = up
  def get(self, o, default=None):
    f = self.d.get(o, Heap)
    if f is not Heap: return f if f is not None else default
    n = self.up
    while n is not None:
      f = n.d.get(o, Heap)
      if f is not Heap: return f if f is not None else default
      n = n.up
    return default
  def __setitem__(self, o, f): self.d[o] = f
  def __getitem__(self, o):
    f = self.get(o)
    if f is None: raise KeyError(o)
    return f
  def __contains__(self, o): return self.get(o) is not None
  def pop(self, o, default=None): self.d[o] = None
  def setdefault(self, o, f):
    if self.get(o) is None: self.d[o] = f
  def copy(self):
    if self.d:
      d, up = self.d, self.up
      while up is not None and len(up.d) <= 2 * len(d):
        d = {**up.d, **d}; up = up.up
      self.up = Layer(d, up); self.d = {}
    return Heap(None, self.up)
  def flat(self):
    ls = [self.d]; n = self.up
    while n is not None: ls.append(n.d); n = n.up
    out = {}
    for d in reversed(ls): out.update(d)
    return {o: f for o, f in out.items() if f is not None}
  def deltas(self, o):
    """What each of two heaps changed since their common ancestor."""
    seen = set(); n = self.up
    while n is not None: seen.add(id(n)); n = n.up
    b = [o.d]; n = o.up
    while n is not None and id(n) not in seen: b.append(n.d); n = n.up
    anc = n
    a = [self.d]; n = self.up
    while n is not anc: a.append(n.d); n = n.up
    def col(ls):
      if len(ls) == 1: return ls[0]
      out = {}
      for d in reversed(ls): out.update(d)
      return out
    return col(a), col(b), Heap(None, anc)

class State:
  __slots__ = ('heap', 'ctl')
  def __init__(self, heap=None, ctl=E): self.heap = heap if isinstance(heap, Heap) else Heap(heap); self.ctl = ctl
  def copy(self): return State(self.heap.copy(), self.ctl)
  def become(self, o): self.heap = o.heap; self.ctl = o.ctl

def merge_fields(a, b, absent=None):
  if a is b: return a
  out = dict(a)
  for k, v in b.items():
    u = out.get(k)
    if u is v: continue
    if u is None:
      out[k] = v if k != 'exact' else 'top'
    elif k == 'seq':
      if v is None or u is None or u == () and v != () or len(u) != len(v): out[k] = False
      elif u is False or v is False: out[k] = False
      else: out[k] = tuple(join(x, y) for x, y in zip(u, v))
    elif isinstance(u, AV) and isinstance(v, AV): out[k] = join(u, v)
    elif u != v: out[k] = 'top' if k in ('term', 'exact') else u
  return out

def seq_merge(u, v):
  if u is False or v is False or u is None or v is None or len(u) != len(v): return False
  return tuple(join(x, y) for x, y in zip(u, v))

class Frame:
  def __init__(self, obj, func, mod, node, ctx):
    self.obj, self.func, self.mod, self.node, self.ctx = obj, func, mod, node, ctx
    self.returns = []; self.yields = []; self.raises = [[]]
    self.globals = set(); self.nonlocals = set(); self.locals = set()
    self.loops = []; self.isgen = False; self.captured = False

class Event:
  __slots__ = ('kind', 'node', 'stack', 'data')
  def __init__(self, kind, node, stack, data): self.kind, self.node, self.stack, self.data = kind, node, stack, data
  def func(self): return self.stack[-1] if self.stack else None
  def text(self): return '%s at %s in %s' % (src(self.node, 80), where(self.node), qualname(self.node))

class Budget(Exception): pass

COMPOUND = (ast.For, ast.While, ast.Try, ast.With)

def local_names(fn):
  """Names bound in a function body (not in nested functions)."""
  names = set(); glob = set(); nonl = set()
  def tgt(t):
    if isinstance(t, ast.Name): names.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for e in t.elts: tgt(e)
    elif isinstance(t, ast.Starred): tgt(t.value)
  def walk(n):
    for c in ast.iter_child_nodes(n): visit(c)
  def visit(n):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
      names.add(n.name)
      return
    if isinstance(n, ast.Lambda): return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      for g in n.generators: visit(g.iter)
      return
    if isinstance(n, ast.Assign):
      for t in n.targets: tgt(t)
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)): tgt(n.target)
    elif isinstance(n, (ast.For, ast.AsyncFor)): tgt(n.target)
    elif isinstance(n, (ast.With, ast.AsyncWith)):
      for i in n.items:
        if i.optional_vars is not None: tgt(i.optional_vars)
    elif isinstance(n, ast.Import):
      for a in n.names: names.add(a.asname or a.name.split('.')[0])
    elif isinstance(n, ast.ImportFrom):
      for a in n.names: names.add(a.asname or a.name)
    elif isinstance(n, ast.ExceptHandler):
      if n.name: names.add(n.name)
    elif isinstance(n, ast.Global): glob.update(n.names); return
    elif isinstance(n, ast.Nonlocal): nonl.update(n.names); return
    elif isinstance(n, ast.Delete):
      for t in n.targets: tgt(t)
    walk(n)
  if isinstance(fn, ast.Lambda): visit(fn.body)
  else:
    for s in fn.body: visit(s)
  a = fn.args
  for x in a.posonlyargs + a.args + a.kwonlyargs: names.add(x.arg)
  if a.vararg: names.add(a.vararg.arg)
  if a.kwarg: names.add(a.kwarg.arg)
  return names - glob - nonl, glob, nonl

def has_yield(fn):
  if isinstance(fn, ast.Lambda): return False
  def w(n):
    for c in ast.iter_child_nodes(n):
      if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
      if isinstance(c, (ast.Yield, ast.YieldFrom)) or w(c): return True
    return False
  return w(fn)

BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

from . import models

class Engine:
  fresh = None      # the last `list[index] = value`: (frame, list name, index name, value)
  def __init__(self, program=None, listener=None):
    self.prog = program or Program()
    self.intern = {}
    self.nobj = 0
    self.ctxs = {}
    self.base = None            # heap after module initialisation
    self.stack = []             # frames
    self.events = []
    self.evseen = set()
    self.steps = 0
    self.budget = 400000
    self.modstate = {}          # module name -> 'running'/'done'
    self.localscache = {}; self.yieldcache = {}
    self.listeners = []
    self.loopdepth = 0
    self.absdepth = 0           # abstract loops being gone through, in every frame
    self.multi = set(); self.ids = {}
    self.modinit = False
    self.opaque = {}            # qualified function name -> handler(engine, st, args, kwargs, node)
    self.unresolved = 0
    self.exactgen = False      # a generator that yields the same values on every path is the list of them
    self.exactnp = False       # numpy.sort of known integers is a known list
    self.inlined = set()
    self.mrocache = {}
    self.symtypes = models.SYMTYPES
    self.C = {}
    for v in (None, True, False): self.const(v)
    self.NONE = self.mk_const(None)

  # ---------------------------------------------------------------- objects
  def obj(self, kind, key, **info):
    k = (kind,) + key
    o = self.intern.get(k)
    if o is None:
      self.nobj += 1
      o = Obj(kind, k, info, self.nobj)
      self.intern[k] = o
    return o
  def const(self, v):
    try: return self.obj('const', (type(v).__name__, v), value=v)
    except TypeError: return self.obj('scalar', ('num',))
  def mk_const(self, v):
    return AV(frozenset((self.const(v),)), E, ('c', type(v).__name__, v))
  def ext(self, name): return AV(frozenset((self.obj('ext', (name,), name=name),)), E, ('ext', name))
  def scalar(self, labs=E, term=None): return AV(frozenset((self.obj('scalar', ('num',)),)), labs, term)
  def unknown(self, labs=E, term=None): return AV(frozenset((self.obj('unk', ('unk',)),)), labs, term)
  def sym(self, path, type='any', labs=None):
    o = self.obj('sym', (path, type), path=path, type=type)
    return AV(frozenset((o,)), frozenset((path,)) if labs is None else labs, ('sym', path))
  def alloc(self, kind, node, st, tag='', **info):
    ctx = self.stack[-1].ctx if self.stack else 0
    o = self.obj(kind, (id(node), ctx, tag), node=node, **info)
    if self.absdepth or o in st.heap: self.multi.add(o)
    # a re-allocation at the same place: forget older contents (recency abstraction)
    st.heap[o] = {}
    return o
  def single(self, o):
    """Whether an abstract object stands for one concrete object."""
    return o.kind in ('inst', 'list', 'dict', 'set', 'bound', 'func', 'class') and o not in self.multi or o.kind == 'sym' and '[*]' not in o.info['path']
  def av(self, o, labs=E, term=None): return AV(frozenset((o,)), labs, term)
  def subctx(self, ctx, node, extra=0):
    k = (ctx, id(node), extra)
    v = self.ctxs.get(k)
    if v is None: v = len(self.ctxs) + 1; self.ctxs[k] = v
    return v

  # ---------------------------------------------------------------- heap
  def fields(self, st, o):
    f = st.heap.get(o)
    if f is None and self.base is not None: f = self.base.get(o)
    return f if f is not None else {}
  def getf(self, st, o, k, d=None):
    v = self.fields(st, o).get(k)
    return d if v is None else v
  def setf(self, st, o, k, v):
    f = dict(self.fields(st, o)); f[k] = v
    st.heap[o] = f
  def delf(self, st, o, k):
    f = dict(self.fields(st, o)); f.pop(k, None)
    st.heap[o] = f
  def merge(self, a, b):
    """Join of two states into a new one."""
    if a is None: return b
    if b is None: return a
    if a.heap is b.heap: return State(a.heap.copy(), a.ctl & b.ctl)
    da, db, anc = a.heap.deltas(b.heap)
    h = a.heap.copy()
    base = self.base or {}
    for o, f in db.items():
      g = da[o] if o in da else anc.get(o)
      if g is f or f is None: continue
      if g is None:
        if o not in base: h[o] = f          # allocated on one side only
        else: h[o] = self.mfields(base[o], f, o)
      else: h[o] = self.mfields(g, f, o)
    for o, f in da.items():
      if o in db or f is None: continue
      g = anc.get(o)
      if g is f: continue
      if g is None:
        if o in base: h[o] = self.mfields(f, base[o], o)
      else: h[o] = self.mfields(f, g, o)
    return State(h, a.ctl & b.ctl if a.ctl != b.ctl else a.ctl)
  def mfields(self, a, b, o):
    if a is b: return a
    out = dict(a)
    inst = o.kind in ('inst', 'class', 'frame', 'module')
    for k in b:
      u = out.get(k); v = b[k]
      if u is v: continue
      if u is None:
        if k == 'seq': out[k] = False
        elif k == 'term' or k == 'exact': out[k] = 'top'
        elif inst and isinstance(v, AV) and o.kind != 'frame': out[k] = join(v, self.ABSENT)
        else:
          out[k] = v
          if o.kind == 'dict' and isinstance(k, tuple): out['maybe'] = True
      elif k == 'seq': out[k] = seq_merge(u, v)
      elif isinstance(u, AV) and isinstance(v, AV): out[k] = join(u, v)
      elif u != v: out[k] = 'top'
    for k in a:
      if k not in b:
        if k == 'seq': out[k] = False
        elif k == 'term' or k == 'exact': out[k] = 'top'
        elif inst and isinstance(a[k], AV) and o.kind != 'frame': out[k] = join(a[k], self.ABSENT)
        elif o.kind == 'dict' and isinstance(k, tuple): out['maybe'] = True
    return out
  @property
  def ABSENT(self):
    return AV(frozenset((self.obj('absent', ('absent',)),)))
  def same(self, a, b):
    if a.heap is b.heap: return True
    da, db, anc = a.heap.deltas(b.heap)
    for x, y in ((da, db), (db, da)):
      for o, f in x.items():
        g = y[o] if o in y else anc.get(o)
        if f is not g and f != g: return False
    return True

  # ---------------------------------------------------------------- events
  def event(self, kind, node, **data):
    for l in self.listeners:
      l(self, kind, node, data)
  def cur(self): return self.stack[-1]
  def chain(self):
    """Call chain, outermost first, as readable text."""
    return [f.func.info['qual'] if f.func is not None else f.mod for f in self.stack]

  # ---------------------------------------------------------------- modules
  def run_module(self, name, st):
    mo = self.obj('module', (name,), name=name)
    if name in self.modstate: return mo
    m = self.prog.modules.get(name)
    if m is None: return None
    if '.' in name:
      parent = name.rsplit('.', 1)[0]
      self.run_module(parent, st)
      if name in self.modstate: return mo
    self.modstate[name] = 'running'
    self.setf(st, mo, '__name__', self.mk_const(name))
    fr = Frame(mo, None, name, m.tree, self.subctx(0, m.tree))
    saved, self.stack = self.stack, self.stack + [fr]
    sctl, st.ctl = st.ctl, E
    body = m.tree.body
    if name in LAZY_MODULES: body = [x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
    try: self.block(body, st)
    finally: self.stack = saved; st.ctl = sctl
    self.modstate[name] = 'done'
    if '.' in name:
      p, c = name.rsplit('.', 1)
      po = self.obj('module', (p,), name=p)
      if c not in self.fields(st, po): self.setf(st, po, c, self.av(mo))
    return mo

  def load_all(self, skip=()):
    st = State()
    self.modinit = True
    b, self.budget = self.budget, 10**9
    self.run_module('pygeode', st)
    for n in sorted(self.prog.modules):
      if any(n.startswith(s) for s in skip) or n.startswith(SKIP_MODULES): continue
      self.run_module(n, st)
    self.modinit = False
    self.budget = b
    self.base = st.heap.flat()
    self.base_events = list(self.events); self.events = []
    return self

  def new_state(self): return State({}, E)

  def lookup_global(self, modname, name, st=None):
    mo = self.intern.get(('module', modname))
    if mo is None: return None
    return self.getf(st or State(), mo, name)
  def find_class(self, qual):
    mod, name = qual.rsplit('.', 1)
    av = self.lookup_global(mod, name)
    if av is None: return None
    for o in av.objs:
      if o.kind == 'class': return o
    return None

  # ---------------------------------------------------------------- statements
  def block(self, stmts, st):
    for s in stmts:
      if not self.stmt(s, st): return False
    return True

  def stmt(self, s, st):
    self.steps += 1
    if self.steps > self.budget: raise Budget()
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None: return True
    if isinstance(s, COMPOUND): self.fresh = None
    try: r = m(s, st)
    except Stop: return False
    finally:
      if isinstance(s, COMPOUND) or isinstance(s, ast.If): self.fresh = None
    return r is not False

  def s_Expr(self, s, st): self.ev(s.value, st)
  def s_Pass(self, s, st): pass
  def s_Import(self, s, st):
    for a in s.names:
      if a.name.split('.')[0] == 'pygeode':
        mo = self.import_repo(a.name, st)
        if a.asname: self.bind(a.asname, mo if mo is not None else self.ext(a.name), st)
        else: self.bind('pygeode', self.av(self.obj('module', ('pygeode',), name='pygeode')), st)
      else:
        self.bind(a.asname or a.name.split('.')[0], self.ext(a.name if a.asname else a.name.split('.')[0]), st)
  def import_repo(self, name, st):
    if name in self.prog.modules:
      return self.av(self.run_module(name, st))
    return None
  def s_ImportFrom(self, s, st):
    base = s.module or ''
    if s.level:
      cur = self.cur().mod
      m = self.prog.modules[cur]
      parts = cur.split('.')
      if not m.path.endswith('__init__.py'): parts = parts[:-1]
      parts = parts[:len(parts) - (s.level - 1)]
      base = '.'.join(parts + ([base] if base else []))
    if base.split('.')[0] != 'pygeode':
      for a in s.names:
        if a.name != '*': self.bind(a.asname or a.name, self.ext(base + '.' + a.name), st)
      return
    mo = self.import_repo(base, st)
    for a in s.names:
      if a.name == '*':
        if mo is None: continue
        o = next(iter(mo.objs)); f = self.fields(st, o)
        names = None
        al = f.get('__all__')
        if al is not None:
          ks = [self.getf(st, x, 'seq') for x in al.objs]
          if len(ks) == 1 and ks[0]: names = [self.constval(e) for e in ks[0]]
        if names is None: names = [k for k in f if isinstance(k, str) and not k.startswith('_')]
        for n in names:
          if n in f: self.bind(n, f[n], st)
        continue
      v = None
      if mo is not None:
        o = next(iter(mo.objs))
        v = self.getf(st, o, a.name)
        if v is None:
          sub = self.import_repo(base + '.' + a.name, st)
          if sub is not None: v = sub
      if v is None:
        v = self.ext(base + '.' + a.name)
        self.event('import_missing', s, base=base, name=a.name, known=mo is not None)
      self.bind(a.asname or a.name, v, st)

  def s_Global(self, s, st): self.cur().globals.update(s.names)
  def s_Nonlocal(self, s, st): self.cur().nonlocals.update(s.names)

  def mkfunc(self, s, st):
    fr = self.cur()
    name = getattr(s, 'name', '<lambda>')
    o = self.obj('func', (id(s), fr.obj), node=s, mod=fr.mod, env=self.envchain(fr), name=name, qual=fr.mod + '.' + qualname(s))
    fr.captured = True
    f = {}
    a = s.args
    f['defaults'] = tuple(self.ev(d, st) for d in a.defaults)
    f['kwdefaults'] = tuple((self.ev(d, st) if d is not None else None) for d in a.kw_defaults)
    f['__name__'] = self.mk_const(name)
    doc = ast.get_docstring(s) if isinstance(s, ast.FunctionDef) else None
    f['__doc__'] = self.mk_const(doc) if doc is not None else self.NONE
    st.heap[o] = f
    return o
  def envchain(self, fr):
    """Enclosing function frames for closures (class bodies are skipped)."""
    if fr.func is None and fr.obj.kind == 'class': return fr.outer
    if fr.obj.kind == 'frame': return (fr.obj,) + fr.env
    return ()
  def s_FunctionDef(self, s, st):
    o = self.mkfunc(s, st)
    v = self.av(o)
    for d in reversed(s.decorator_list):
      dv = self.ev(d, st)
      v = self.call(dv, [v], {}, d, st)
    self.bind(s.name, v, st)
  s_AsyncFunctionDef = s_FunctionDef

  def s_ClassDef(self, s, st):
    bases = [self.ev(b, st) for b in s.bases]
    fr = self.cur()
    co = self.obj('class', (id(s), fr.ctx), name=s.name, mod=fr.mod, node=s, qual=fr.mod + '.' + qualname(s))
    bs = []
    for b in bases:
      for o in b.objs:
        if o.kind in ('class', 'ext'): bs.append(o); break
    co.info['bases'] = bs
    st.heap[co] = {'__name__': self.mk_const(s.name), '__module__': self.mk_const(fr.mod)}
    doc = ast.get_docstring(s)
    self.setf(st, co, '__doc__', self.mk_const(doc) if doc else self.NONE)
    cf = Frame(co, None, fr.mod, s, self.subctx(fr.ctx, s))
    cf.outer = self.envchain(fr)
    fr.captured = True
    self.stack = self.stack + [cf]
    try: self.block(s.body, st)
    finally: self.stack = self.stack[:-1]
    v = self.av(co)
    for d in reversed(s.decorator_list): v = self.call(self.ev(d, st), [v], {}, d, st)
    self.bind(s.name, v, st)

  def s_Return(self, s, st):
    v = self.ev(s.value, st) if s.value is not None else self.NONE
    fr = self.cur()
    v = v.withlabs(st.ctl)
    self.event('return', s, value=v, st=st)
    fr.returns.append((v, st.copy()))
    return False
  def s_Delete(self, s, st):
    for t in s.targets:
      if isinstance(t, ast.Name): self.unbind(t.id, st)
      elif isinstance(t, ast.Subscript):
        b = self.ev(t.value, st); k = self.ev(t.slice, st)
        self.mutate(b, 'del item', s, st)
        for o in b.objs:
          if o.kind == 'dict':
            c = self.constval(k, None)
            if c is not None: self.delf(st, o, ('k', c))
          elif o.kind == 'list': self.setf(st, o, 'seq', False)
      elif isinstance(t, ast.Attribute):
        b = self.ev(t.value, st)
        for o in b.objs:
          self.event('delattr', s, obj=o, attr=t.attr)
          if o.kind in ('inst', 'class', 'module'): self.delf(st, o, t.attr)
  def s_Assign(self, s, st):
    v = self.ev(s.value, st)
    for t in s.targets: self.assign(t, v, st, s)
  def s_AnnAssign(self, s, st):
    if s.value is not None: self.assign(s.target, self.ev(s.value, st), st, s)
  def s_AugAssign(self, s, st):
    t = s.target
    if isinstance(t, ast.Name): cur = self.lookup(t.id, st, t)
    elif isinstance(t, ast.Attribute): cur = self.getattr(self.ev(t.value, st), t.attr, st, t)
    else:
      b = self.ev(t.value, st); k = self.ev(t.slice, st)
      cur = self.getitem(b, k, st, t)
    val = self.ev(s.value, st)
    inpl = [o for o in cur.objs if o.kind in ('arr', 'list', 'set') or (o.kind == 'dict') or (o.kind == 'sym' and (o.info['type'] in ('arr', 'list', 'dict') or o.info['type'].startswith(('list:', 'dict:'))))]
    res = self.binop(type(s.op).__name__, cur, val, s, st)
    self.event('aug', s, op=type(s.op).__name__, cur=cur, val=val, st=st)
    if inpl and not isinstance(t, ast.Subscript):
      self.mutate(AV(frozenset(inpl), cur.labs), 'in-place ' + type(s.op).__name__, s, st, val)
      new = set(o for o in res.objs if o.kind not in ('arr', 'list') or not inpl) | set(inpl)
      if len(inpl) == len(cur.objs): new = set(inpl)
      for o in inpl:
        if o.kind == 'list':
          seqs = [self.getf(st, x, 'seq') for x in val.objs]
          a = self.getf(st, o, 'seq')
          if len(seqs) == 1 and seqs[0] not in (None, False) and a not in (None, False) and not self.loopdepth: self.setf(st, o, 'seq', a + seqs[0])
          else:
            self.setf(st, o, 'seq', False)
          self.setf(st, o, 'elem', join(self.getf(st, o, 'elem', NOTHING), self.elem(val, st)))
        elif o.kind == 'arr':
          self.setf(st, o, 'elem', AV(E, self.getf(st, o, 'elem', NOTHING).labs | self.labs(val, st)))
          self.setf(st, o, 'term', res.term if res.term is not None else 'top')
      res = AV(frozenset(new), cur.labs | val.labs | st.ctl, res.term)
    if isinstance(t, ast.Subscript):
      self.setitem(b, k, res, st, s, aug=True)
    else: self.assign(t, res, st, s)

  def assign(self, t, v, st, node):
    if isinstance(t, ast.Name): self.bind(t.id, v.withlabs(st.ctl), st)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vals = self.unpack(v, len(t.elts), st, node, any(isinstance(e, ast.Starred) for e in t.elts))
      for e, x in zip(t.elts, vals):
        if isinstance(e, ast.Starred):
          o = self.alloc('list', e, st); self.setf(st, o, 'elem', self.elem(v, st)); self.setf(st, o, 'seq', False)
          self.assign(e.value, self.av(o, v.labs), st, node)
        else: self.assign(e, x, st, node)
    elif isinstance(t, ast.Attribute):
      b = self.ev(t.value, st)
      self.setattr(b, t.attr, v, st, node)
    elif isinstance(t, ast.Subscript):
      b = self.ev(t.value, st); k = self.ev(t.slice, st)
      self.setitem(b, k, v, st, node, sl=t.slice)
      if isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Name) and all(o.kind == 'list' for o in b.objs) and not any(o.kind == 'slice' for o in k.objs): self.fresh = (self.cur(), t.value.id, t.slice.id, v.withlabs(st.ctl))
    elif isinstance(t, ast.Starred): self.assign(t.value, v, st, node)

  def unpack(self, v, n, st, node, starred=False):
    seqs = []
    for o in v.objs:
      q = self.seq(o, st)
      if q is not None and (len(q) == n) and not starred: seqs.append(tuple(x.withlabs(v.labs) if o.kind != 'sym' else x for x in q))
      elif q is not None and starred: seqs.append(None)
      else: seqs.append(None)
    if seqs and all(s is not None for s in seqs):
      return [joinall([s[i] for s in seqs]) for i in range(n)]
    known = [s for s in seqs if s is not None]
    e = self.elem(v, st)
    if known and len(known) < len(seqs):
      return [join(joinall([s[i] for s in known]), e).noterm() for i in range(n)]
    return [self.termsub(e, v.term, i) for i in range(n)]
  def termsub(self, e, t, i):
    return AV(e.objs, e.labs, ('item', t, ('c', 'int', i)) if t is not None else None)

  def s_If(self, s, st):
    tv = self.ev(s.test, st)
    t = self.truth(tv, st)
    self.event('branch', s, test=tv, st=st)
    if t is True: self.refine(s.test, st, True); return self.block(s.body, st)
    if t is False: self.refine(s.test, st, False); return self.block(s.orelse, st)
    ctl = st.ctl
    st.ctl = ctl | self.testlabs(tv, st)
    s2 = st.copy(); fresh = self.fresh
    a = self.refine(s.test, st, True) is not False and self.block(s.body, st)
    self.fresh = fresh
    b = self.refine(s.test, s2, False) is not False and self.block(s.orelse, s2)
    if a and b: st.become(self.merge(st, s2))
    elif b: st.become(s2)
    # a branch that leaves makes everything after it depend on the test only through that exit
    st.ctl = ctl
    if self.jumpctl and a != b and not isinstance((s.body if b else s.orelse)[-1:] and (s.body if b else s.orelse)[-1], ast.Raise): st.ctl = ctl | self.testlabs(tv, st)
    return a or b

  def loop_iters(self, v, st):
    """Known element list to unroll, or None."""
    if 1 < len(v.objs) <= 4 and all(o.kind == 'tuple' for o in v.objs):
      qs = [self.seq(o, st) for o in v.objs]
      if any(q is None for q in qs) or len({len(q) for q in qs}) != 1 or len(qs[0]) > 12: return None
      return tuple(joinall(x) for x in zip(*qs))
    if len(v.objs) != 1: return None
    o = next(iter(v.objs))
    if o.kind == 'inst' and o.info.get('cls') is not None:
      m = self.getattr(self.av(o), '__iter__', st, None, quiet=True)
      if m is None or not m.objs or any(x.kind != 'bound' for x in m.objs): return None
      r = self.call(m, [], {}, o.info.get('node') or self.cur().node, st)
      if len(r.objs) != 1 or next(iter(r.objs)).kind == 'inst': return None
      o = next(iter(r.objs))
    q = self.seq(o, st)
    if q is None or len(q) > 200: return None
    return q

  def s_For(self, s, st):
    it = self.ev(s.iter, st)
    self.event('iterate', s, iter=it, expr=s.iter, st=st)
    its = self.loop_iters(it, st)
    ctl = st.ctl
    fr = self.cur()
    if its is not None:
      brks = []
      alive = True
      ctx0 = fr.ctx
      may = self.fields(st, next(iter(it.objs))).get('maybe')
      for i, x in enumerate(its):
        fr.ctx = self.subctx(ctx0, s, i + 1)
        pre = st.copy() if may else None
        self.assign(s.target, x.withlabs(it.labs), st, s)
        rec = ([], [], False); fr.loops.append(rec)
        alive = self.block(s.body, st)
        fr.loops.pop()
        brks += rec[0]
        for c in rec[1]:
          if alive: st.become(self.merge(st, c))
          else: st.become(c); alive = True
        if not alive and pre is not None: st.become(pre); alive = True      # the element may be missing
        if not alive: break
      fr.ctx = ctx0
      if alive and s.orelse: alive = self.block(s.orelse, st)
      for b in brks:
        if alive: st.become(self.merge(st, b))
        else: st.become(b); alive = True
      st.ctl = ctl
      return alive
    e = self.elem(it, st).withlabs(it.labs)
    self.event('loop', s, iter=it, elem=e, st=st)
    return self.abstract_loop(s, st, lambda q: self.assign(s.target, AV(e.objs, e.labs, ('elem', it.term) if it.term is not None else None), q, s), it, None)

  def abstract_loop(self, s, st, pre, it, test):
    fr = self.cur(); ctl = st.ctl
    brks = []; exits = st.copy()
    self.loopdepth += 1; self.absdepth += 1
    head = st.copy()
    for k in range(4):
      cur = head.copy()
      if test is not None:
        tv = self.ev(test, cur)
        tt = self.truth(tv, cur)
        if tt is False: exits = cur; break
        cur.ctl = ctl | self.testlabs(tv, cur)
        ex = cur.copy(); self.refine(test, ex, False); ex.ctl = ctl
        exits = ex if tt is not True else None
        self.refine(test, cur, True)
      else: cur.ctl = ctl | self.testlabs(it, cur)
      if pre: pre(cur)
      rec = ([], [], True); fr.loops.append(rec)
      alive = self.block(s.body, cur)
      fr.loops.pop()
      brks += rec[0]
      ends = ([cur] if alive else []) + rec[1]
      once = self.libcall is not None and test is None and k == 0      # taken to run at least once
      if not ends:
        if once: head = None
        break
      nxt = None if once else head
      for e2 in ends: e2.ctl = ctl; nxt = e2 if nxt is None else self.merge(nxt, e2)
      if self.same(nxt, head): head = nxt; break
      head = nxt
    if test is None: exits = head
    elif exits is not None:
      e2 = head.copy(); self.refine(test, e2, False); exits = self.merge(exits, e2)
    self.loopdepth -= 1; self.absdepth -= 1
    alive = exits is not None
    if alive: st.become(exits); st.ctl = ctl
    if alive and s.orelse: alive = self.block(s.orelse, st)
    for b in brks:
      b.ctl = ctl
      if alive: st.become(self.merge(st, b))
      else: st.become(b.copy()); alive = True
    st.ctl = ctl
    return alive

  def s_While(self, s, st):
    return self.abstract_loop(s, st, None, None, s.test)
  def s_Break(self, s, st):
    L = self.cur().loops
    if L: L[-1][0].append(st.copy())
    return False
  def s_Continue(self, s, st):
    L = self.cur().loops
    if L: L[-1][1].append(st.copy())
    return False

  def s_Raise(self, s, st):
    v = self.ev(s.exc, st) if s.exc is not None else None
    self.keythrow += 1; self.raised += 1
    self.event('raise', s, value=v, st=st)
    fr = self.cur()
    fr.raises[-1].append(st.copy())
    return False
  def s_Assert(self, s, st):
    tv = self.ev(s.test, st)
    t = self.truth(tv, st)
    self.event('assert', s, value=tv, st=st)
    if s.msg is not None and t is not True:
      self.ev(s.msg, st.copy())
    if t is False:
      self.cur().raises[-1].append(st.copy())
      return False
    self.refine(s.test, st, True)

  def s_Try(self, s, st):
    fr = self.cur()
    pre = st.copy()
    fr.raises.append([])
    alive = True
    snaps = [pre]
    mt = self.maythrow; kt = self.keythrow
    for x in s.body:
      alive = self.stmt(x, st)
      if not alive: break
      snaps.append(st.copy())
    raised = fr.raises.pop()
    bodyalive = alive
    if alive and s.orelse: alive = self.block(s.orelse, st)
    outs = [st.copy()] if alive else []
    hs = None
    for q in snaps + raised: hs = q.copy() if hs is None else self.merge(hs, q)
    hs.ctl = pre.ctl
    if mt == self.maythrow and not raised and pre.heap is not None and all(isinstance(x, self.QUIETST) for x in s.body): handlers = []
    else: handlers = s.handlers
    for h in handlers:
      if self.skip_handler(s, h, bodyalive): continue
      # nothing that was followed looks anything up where it may be missing
      if kt == self.keythrow and not raised and isinstance(h.type, ast.Name) and (h.type.id in ('KeyError', 'IndexError') or h.type.id == 'ValueError' and self.plain(s.body)): continue
      q = hs.copy()
      if h.type is not None: self.ev(h.type, q)
      if h.name: self.bind(h.name, self.unknown(), q)
      if self.block(h.body, q): outs.append(q)
    if not s.handlers and raised: fr.raises[-1] += raised
    if outs:
      r = outs[0]
      for o in outs[1:]: r = self.merge(r, o)
      st.become(r); alive = True
    else: alive = False
    if s.finalbody:
      q = st if alive else hs.copy()
      a2 = self.block(s.finalbody, q)
      alive = alive and a2
    return alive
  s_TryStar = s_Try
  def plain(self, body):
    """Nothing but names, attributes and calls."""
    return all(isinstance(x, (ast.Return, ast.Expr, ast.Assign)) and not (isinstance(x, ast.Assign) and not all(isinstance(t, ast.Name) for t in x.targets)) and
               not any(isinstance(y, (ast.BinOp, ast.Compare, ast.Subscript, ast.UnaryOp, ast.Starred)) for y in ast.walk(x)) for x in body)
  def skip_handler(self, s, h, bodyalive):
    """Import guards: the import is assumed to succeed."""
    if not bodyalive: return False
    names = []
    if h.type is not None:
      for n in ast.walk(h.type):
        if isinstance(n, ast.Name): names.append(n.id)
    return 'ImportError' in names or 'ModuleNotFoundError' in names

  def s_With(self, s, st):
    for i in s.items:
      v = self.ev(i.context_expr, st)
      r = []
      for o in v.objs:
        if o.kind == 'inst':
          m = self.getattr(self.av(o, v.labs), '__enter__', st, s, quiet=True)
          if m is not None and m.objs: r.append(self.call(m, [], {}, s, st)); continue
        if o.kind == 'gen': r.append(self.getf(st, o, 'elem', NOTHING)); continue
        r.append(self.av(o, v.labs))
      if i.optional_vars is not None: self.assign(i.optional_vars, joinall(r), st, s)
    return self.block(s.body, st)

  # ---------------------------------------------------------------- names
  def fnlocals(self, node):
    r = self.localscache.get(id(node))
    if r is None: r = local_names(node); self.localscache[id(node)] = r
    return r
  def bind(self, name, v, st):
    fr = self.cur()
    if self.fresh is not None and name in self.fresh[1:3]: self.fresh = None
    if name in fr.globals:
      mo = self.obj('module', (fr.mod,), name=fr.mod)
      self.event('global_write', fr.node, name=name, mod=fr.mod, value=v)
      self.setf(st, mo, name, v); return
    if name in fr.nonlocals:
      for e in fr.env:
        if name in self.fields(st, e): self.setf(st, e, name, v); return
    if fr.obj.kind == 'class' and not fr.func:
      pass
    self.setf(st, fr.obj, name, v)
  def unbind(self, name, st):
    fr = self.cur(); self.delf(st, fr.obj, name)
  def lookup(self, name, st, node):
    fr = self.cur()
    f = self.fields(st, fr.obj)
    if name not in fr.globals:
      v = f.get(name)
      if v is not None: return v
      for e in getattr(fr, 'compenv', ()):
        v = self.fields(st, e).get(name)
        if v is not None: return v
      env = fr.outer if fr.obj.kind == 'class' else getattr(fr, 'env', ())
      for e in env:
        v = self.fields(st, e).get(name)
        if v is not None: return v
    mo = self.intern.get(('module', fr.mod))
    if mo is not None:
      v = self.fields(st, mo).get(name)
      if v is not None: return v
    if hasattr(builtins, name): return self.ext('builtins.' + name) if name not in ('True', 'False', 'None', 'Ellipsis') else self.mk_const(getattr(builtins, name))
    if name in ('__file__', '__name__', '__doc__'): return self.scalar()
    islocal = fr.obj.kind == 'frame' and name in fr.locals
    self.event('undefined_name', node, name=name, local=islocal)
    return self.unknown()

  # ---------------------------------------------------------------- refinement
  def place(self, e, st):
    """(holder Obj, field) of a refinable expression."""
    if isinstance(e, ast.NamedExpr): e = e.target
    if isinstance(e, ast.Name):
      fr = self.cur()
      f = self.fields(st, fr.obj)
      if e.id in f: return fr.obj, e.id
      return None
    if isinstance(e, ast.Attribute):
      p = self.place(e.value, st)
      if p is None: return None
      v = self.fields(st, p[0]).get(p[1])
      if not isinstance(v, AV) or len(v.objs) != 1: return None
      o = next(iter(v.objs))
      if o.kind == 'inst' and e.attr in self.fields(st, o): return o, e.attr
      if o.kind == 'sym': return o, e.attr
    return None
  def isnone(self, o):
    if o.kind == 'const': return o.info['value'] is None
    if o.kind == 'unk': return None
    if o.kind == 'sym' and o.info['type'].endswith('?'): return None
    return False
  def refine(self, test, st, val):
    """Narrow the heap by the outcome of a test; False if the outcome is impossible."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.refine(test.operand, st, not val)
    if isinstance(test, ast.BoolOp):
      if isinstance(test.op, ast.And) == val:
        for v in test.values:
          if self.refine(v, st, val) is False: return False
      return True
    keep = None; target = None
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
      op = test.ops[0]; l, r = test.left, test.comparators[0]
      if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
        pos = isinstance(op, (ast.Is, ast.Eq)) == val
        target = l
        if r.value is None:
          keep = (lambda o: self.isnone(o) is not False) if pos else (lambda o: self.isnone(o) is not True)
        else:
          keep = (lambda o: o.kind != 'const' or o.info['value'] == r.value) if pos else (lambda o: not (o.kind == 'const' and o.info['value'] == r.value))
      elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in r.elts):
        vals = [x.value for x in r.elts]
        pos = isinstance(op, ast.In) == val
        target = l
        keep = (lambda o: o.kind != 'const' or o.info['value'] in vals) if pos else (lambda o: not (o.kind == 'const' and o.info['value'] in vals))
    elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
      target = test.args[0]
      p = self.place(target, st)
      if p is None: return True
      try: cls = self.ev(test.args[1], st.copy())
      except Stop: return True
      v = self.fields(st, p[0]).get(p[1])
      if not isinstance(v, AV): return True
      new = set()
      for o in v.objs:
        r = self.isinst(o, cls, st)
        if r is None and val: new |= self.narrow(o, cls, st)
        elif r is None or r == val: new.add(o)
      if not new: return False
      self.setf(st, p[0], p[1], AV(frozenset(new), v.labs, v.term))
      return True
    elif isinstance(test, (ast.Name, ast.Attribute)):
      target = test
      def tr(o):
        t = self.truth1(o, st)
        return t is None or t == val
      keep = tr
    if keep is None: return True
    p = self.place(target, st)
    if p is None: return True
    v = self.fields(st, p[0]).get(p[1])
    if not isinstance(v, AV):
      return True
    new = frozenset(o for o in v.objs if keep(o))
    if not new: return False if v.objs else True
    if new != v.objs: self.setf(st, p[0], p[1], AV(new, v.labs, v.term))
    return True

  def narrow(self, o, cls, st):
    if o.kind != 'sym': return {o}
    t = o.info['type']
    out = set()
    cl = self.flatten_classes(cls, st)
    for c in cl:
      if c.kind == 'class':
        tt = self.typename(c)
        out.add(self.obj('sym', (o.info['path'], tt), path=o.info['path'], type=tt))
      elif c.kind == 'ext':
        tt = models.EXTTYPES.get(c.info['name'])
        if tt: out.add(self.obj('sym', (o.info['path'], tt), path=o.info['path'], type=tt))
        else: out.add(o)
    return out or {o}
  def typename(self, c):
    q = c.info['qual']
    return {'pygeode.var.Var': 'Var', 'pygeode.axis.Axis': 'Axis', 'pygeode.dataset.Dataset': 'Dataset', 'pygeode.view.View': 'View'}.get(q, 'cls:' + q)
  def typeclass(self, t):
    t = t.rstrip('?')
    m = {'Var': 'pygeode.var.Var', 'Axis': 'pygeode.axis.Axis', 'Dataset': 'pygeode.dataset.Dataset', 'View': 'pygeode.view.View'}
    q = m.get(t) or (t[4:] if t.startswith('cls:') else None)
    if q is None: return None
    return self.find_class_any(q)
  def find_class_any(self, q):
    c = self.C.get(q)
    if c is None:
      for o in self.intern.values():
        if o.kind == 'class' and o.info.get('qual') == q: c = o; break
      self.C[q] = c
    return c

  # ---------------------------------------------------------------- truth
  def truth1(self, o, st):
    k = o.kind
    if k == 'const':
      try: return bool(o.info['value'])
      except Exception: return None
    if k in ('func', 'class', 'module', 'bound', 'ext'): return True
    if k == 'inst':
      if self.classattr(o.info['cls'], '__len__', st) or self.classattr(o.info['cls'], '__bool__', st): return None
      return True
    if k in ('list', 'tuple', 'dict', 'set'):
      q = self.seq(o, st)
      if k == 'set':
        x = self.getf(st, o, 'exact')
        if isinstance(x, frozenset): return bool(x)
      if q is not None and k != 'dict': return len(q) > 0
      if k == 'dict':
        f = self.fields(st, o)
        if not f.get('open') and not any(isinstance(x, tuple) for x in f): return False
        if self.libcall is not None and not f.get('maybe') and not f.get('weak') and any(isinstance(x, tuple) and x[0] == 'k' for x in f): return True
      return None
    return None
  def truth(self, v, st):
    r = set(self.truth1(o, st) for o in v.objs)
    if r == {True}: return True
    if r == {False}: return False
    return None
  def constval(self, v, default=None):
    if len(v.objs) == 1:
      o = next(iter(v.objs))
      if o.kind == 'const': return o.info['value']
    return default
  def isconst(self, v): return len(v.objs) == 1 and next(iter(v.objs)).kind == 'const'

  # ---------------------------------------------------------------- containers
  def seq(self, o, st):
    """Known sequence of element values, or None."""
    k = o.kind
    if k == 'set':
      x = self.getf(st, o, 'exact')
      if isinstance(x, frozenset) and len(x) <= 12 and all(c[0] == 'c' for c in x):
        return tuple(self.mk_const(c[1]) for c in sorted(x, key=repr))
    if k in ('list', 'tuple', 'gen', 'set'):
      q = self.getf(st, o, 'seq')
      return q if q not in (None, False) else ((() if self.getf(st, o, 'elem') is None and q is None else None))
    if k == 'const' and isinstance(o.info['value'], str) and len(o.info['value']) <= 24:
      return tuple(self.mk_const(c) for c in o.info['value'])
    if k == 'dict':
      f = self.fields(st, o)
      if not f.get('open') and f.get('elem') is None:
        return tuple(self.mk_const(x[1]) for x in f if isinstance(x, tuple) and x[0] == 'k')
    if k == 'sym' and o.info['type'].startswith('tuple(') and o.info['type'].endswith(')'):
      ts = o.info['type'][6:-1].split(';')
      return tuple(self.sym('%s[%d]' % (o.info['path'], i), t) for i, t in enumerate(ts))
    return None
  def elem(self, v, st):
    """Join of all elements obtained by iterating over v."""
    if len(v.objs) > 1 and any(o.kind in ('inst', 'sym') for o in v.objs):
      out = None; ok = False          # an alternative that cannot be iterated leaves the others
      for o in sorted(v.objs, key=lambda o: o.n):
        try: x = self.elem(AV(frozenset((o,)), v.labs), st)
        except Stop: continue
        out = x if out is None else join(out, x)
      if out is None: raise Stop()
      return out
    out = None; labs = set(v.labs)
    for o in v.objs:
      k = o.kind
      q = self.seq(o, st)
      if q is not None and k != 'arr':
        for x in q: out = join(out, x) if out is not None else x
        if q: continue
        if k in ('list', 'tuple', 'gen', 'set', 'dict'): continue
      if k in ('list', 'tuple', 'gen', 'set'):
        e = self.getf(st, o, 'elem')
        if e is not None: out = join(out, e) if out is not None else e
      elif k == 'dict':
        f = self.fields(st, o)
        e = AV(frozenset(self.const(x[1]) for x in f if isinstance(x, tuple) and x[0] == 'k'))
        if f.get('kelem') is not None: e = join(e, f['kelem'])
        out = join(out, e) if out is not None else e
      elif k == 'sym':
        e = self.sym_elem(o, st, iterate=True)
        out = join(out, e) if out is not None else e
      elif k == 'arr':
        e = self.scalar(self.getf(st, o, 'elem', NOTHING).labs)
        out = join(out, e) if out is not None else e
      elif k == 'inst':
        m = self.getattr(self.av(o), '__iter__', st, None, quiet=True)
        if m is not None and m.objs:
          r = self.call(m, [], {}, o.info.get('node') or self.cur().node, st)
          e = self.elem(r, st) if not any(x.kind == 'inst' for x in r.objs) else self.unknown()
        else: e = self.unknown()
        out = join(out, e) if out is not None else e
      else:
        e = self.unknown()
        out = join(out, e) if out is not None else e
    if out is None: return AV(E, frozenset(labs))
    return AV(out.objs, out.labs | frozenset(labs), None)
  def sym_elem(self, o, st, iterate=False, idx=None):
    p, t = o.info['path'], o.info['type'].rstrip('?')
    if idx is not None and not isinstance(idx, int): idx = None
    np_ = p if p.endswith('[*]') or len(p) > 160 else p + '[*]'
    if t.startswith('tuple:') or t.startswith('list:'): return self.sym(np_, t.split(':', 1)[1])
    if t.startswith('dict:'):
      if iterate: return self.sym(p + '.keys', 'str')
      return self.sym(np_, t.split(':', 1)[1])
    if t == 'dict':
      if iterate: return self.sym(p + '.keys', 'str')
      return self.sym(np_, 'any')
    if t == 'arr': return self.sym(p, 'num') if iterate else self.sym(p, 'arr')
    if t == 'Dataset': return self.sym(p + '.vars[*]', 'Var')
    if t in ('str', 'num', 'int'): return self.sym(np_, t)
    return self.sym(np_, 'any')

  def labs(self, v, st, depth=2):
    """Labels of a value including what it contains."""
    r = set(v.labs)
    if depth:
      for o in v.objs:
        if o.kind in ('arr', 'list', 'tuple', 'dict', 'set', 'gen', 'slice'):
          for k, x in self.fields(st, o).items():
            if isinstance(x, AV): r |= self.labs(x, st, depth - 1) if x.objs else x.labs
            elif k == 'seq' and x:
              for y in x: r |= self.labs(y, st, depth - 1)
    return frozenset(r)

  def deep_labs(self, v, st, seen=None, depth=6):
    """Labels reachable from a value through every field."""
    if seen is None: seen = set()
    r = set(v.labs)
    if depth == 0: return r
    for o in v.objs:
      if o in seen: continue
      seen.add(o)
      if o.kind in ('class', 'module', 'func', 'ext'):
        continue
      if o.kind == 'bound':
        r |= self.deep_labs(o.info['me'], st, seen, depth - 1); continue
      for k, x in self.fields(st, o).items():
        if isinstance(x, AV): r |= self.deep_labs(x, st, seen, depth - 1)
        elif k == 'seq' and x:
          for y in x: r |= self.deep_labs(y, st, seen, depth - 1)
    return r

  def mklist(self, kind, node, avs, st, labs=E, tag=''):
    o = self.alloc(kind, node, st, tag)
    avs = tuple(avs)
    st.heap[o] = {'seq': avs, 'elem': joinall(avs)} if avs else {'seq': ()}
    t = None
    if all(a.term is not None for a in avs):
      t = (kind,) + tuple(a.term for a in avs)
      if len(repr(t)) > 2000: t = None
    return AV(frozenset((o,)), labs, t)
  def mkopen(self, kind, node, elem, st, labs=E, tag='', term=None):
    o = self.alloc(kind, node, st, tag)
    st.heap[o] = {'seq': False, 'elem': elem}
    return AV(frozenset((o,)), labs, term)
  def mkarr(self, node, labs, st, tag='arr', term=None):
    o = self.alloc('arr', node, st, tag)
    st.heap[o] = {'elem': AV(E, labs)}
    return AV(frozenset((o,)), labs, term)

  def isbasic(self, k, st):
    """Basic numpy index: True (view), False (copy), None unknown."""
    r = set()
    for o in k.objs:
      if o.kind == 'const': r.add(not isinstance(o.info['value'], bool) or None)
      elif o.kind in ('slice',): r.add(True)
      elif o.kind == 'scalar': r.add(True)
      elif o.kind == 'tuple':
        q = self.seq(o, st)
        if q is None:
          e = self.getf(st, o, 'elem', NOTHING)
          q = (e,) if e.objs else ()
        rr = [self.isbasic(x, st) for x in q]
        r.add(False if False in rr else None if None in rr else True)
      elif o.kind in ('list', 'arr'): r.add(False)
      elif o.kind == 'sym':
        t = o.info['type']
        if t in ('int', 'num', 'slice'): r.add(True)
        elif t in ('arr', 'list') or t.startswith('list:'): r.add(False)
        else: r.add(None)
      elif o.kind == 'ext': r.add(True)
      else: r.add(None)
    if r == {True}: return True
    if r == {False}: return False
    if True in r and not None in r and not False in r: return True
    return None

  def getitem(self, b, k, st, node):
    out = None
    c = self.constval(k, _MISSING)
    klabs = k.labs if not any(o.kind in ('slice', 'tuple') for o in k.objs) else frozenset(self.deep_labs(k, st, depth=3))
    self.event('getitem', node, base=b, key=k, st=st)
    for o in b.objs:
      r = None
      kd = o.kind
      if kd in ('list', 'tuple', 'gen', 'const'):
        q = self.seq(o, st)
        if kd == 'const' and not isinstance(o.info['value'], str): r = self.unknown()
        elif kd == 'const' and isinstance(c, int) and -len(o.info['value']) <= c < len(o.info['value']): r = self.mk_const(o.info['value'][c])
        elif kd == 'const':
          r = self.scalar()
          if len(k.objs) == 1 and next(iter(k.objs)).kind == 'slice':
            cs = [self.constval(x, _MISSING) for x in self.getf(st, next(iter(k.objs)), 'seq', ())]
            if len(cs) == 3 and all(x is None or isinstance(x, int) for x in cs): r = self.mk_const(o.info['value'][slice(*cs)])
        elif q is not None and isinstance(c, int) and not isinstance(c, bool):
          if -len(q) <= c < len(q): r = q[c]
          else: r = AV()
        elif q is not None and any(x.kind == 'slice' for x in k.objs) and len(k.objs) == 1:
          s0 = next(iter(k.objs)); cs = [self.constval(x, _MISSING) for x in self.getf(st, s0, 'seq', ())]
          if all(x is None or isinstance(x, int) for x in cs) and len(cs) == 3:
            r = self.mklist(kd if kd != 'gen' else 'list', node, q[slice(*cs)], st, klabs)
          else: r = self.mkopen(kd, node, joinall(q), st, klabs)
        elif any(x.kind == 'slice' for x in k.objs):
          r = self.mkopen('list' if kd == 'gen' else kd, node, self.elem(self.av(o), st), st, klabs)
        else: r = self.elem(self.av(o), st)
      elif kd == 'dict':
        f = self.fields(st, o)
        if c is not _MISSING and ('k', c) in f:
          r = f[('k', c)]
          if f.get('weak') and f.get('elem') is not None: r = join(r, f['elem'])
        else:
          vs = [v for x, v in f.items() if isinstance(x, tuple) and x[0] == 'k'] if c is _MISSING else []
          if f.get('elem') is not None: vs.append(f['elem'])
          r = joinall(vs)
          if not vs and not f.get('open'):
            if len(b.objs) == 1 and c is not _MISSING and not f.get('maybe') and not f.get('weak') and not self.loopdepth and o not in self.multi: self.event('keyerror', node, obj=o, key=c, st=st); raise Stop()
            r = AV()
          elif not r.objs: r = self.unknown(r.labs)
      elif kd == 'arr':
        basic = self.isbasic(k, st)
        if basic is not False: r = AV(frozenset((o,)), E)
        else: r = self.mkarr(node, self.labs(b, st), st)
        if basic is None: r = AV(r.objs | frozenset((self.mkarr(node, self.labs(b, st), st, 'fancy').objs)), r.labs)
      elif kd == 'sym':
        t = o.info['type'].rstrip('?')
        q = self.seq(o, st)
        if q is not None and isinstance(c, int) and -len(q) <= c < len(q): r = q[c]
        elif t == 'arr':
          basic = self.isbasic(k, st)
          if basic is not False: r = AV(frozenset((o,)), frozenset((o.info['path'],)))
          else: r = self.mkarr(node, frozenset((o.info['path'],)), st)
          if basic is None: r = AV(r.objs | self.mkarr(node, r.labs, st, 'fancy').objs, r.labs)
        elif t in ('Var', 'Axis') or t.startswith('cls:'):
          m = self.getattr(self.av(o, b.labs), '__getitem__', st, node, quiet=True)
          r = self.call(m, [k], {}, node, st) if m is not None and m.objs and not any(x.kind == 'unk' for x in m.objs) else self.unknown(b.labs)
        elif t.startswith(('tuple:', 'list:')) and any(x.kind == 'slice' for x in k.objs):
          e = self.sym_elem(o, st)
          r = self.mkopen(t.split(':')[0], node, e, st, b.labs | klabs)
        elif t == 'Dataset': r = self.sym(o.info['path'] + '.vars[*]', 'Var')
        elif t in ('dict',) or t.startswith('dict:'):
          p = o.info['path']
          ov = self.getf(st, o, ('k', c)) if c is not _MISSING else None
          if ov is not None: r = ov
          elif c is not _MISSING and isinstance(c, (str, int)): r = self.sym('%s[%r]' % (p, c), t[5:] if t.startswith('dict:') else 'any')
          else: r = self.sym_elem(o, st)
        else:
          p = o.info['path']
          if c is not _MISSING and isinstance(c, (str, int)) and len(p) < 160: r = self.sym('%s[%r]' % (p, c), 'any' if ':' not in t else t.split(':', 1)[1])
          else: r = self.sym_elem(o, st)
      elif kd == 'inst':
        m = self.getattr(self.av(o, b.labs), '__getitem__', st, node, quiet=True)
        r = self.call(m, [k], {}, node, st) if m is not None and m.objs else self.unknown(b.labs)
      elif kd == 'ext' and o.info['name'] in ('numpy.s_', 'numpy.index_exp'): r = k
      else: r = self.unknown(b.labs)
      out = r if out is None else join(out, r)
    if out is None: out = AV()
    t = None
    if len(b.objs) == 1:
      o = next(iter(b.objs))
      if o.kind in ('list', 'tuple', 'dict') and out.term is not None: t = out.term
      elif b.term is not None and k.term is not None and o.kind not in ('list', 'dict'):
        ot = self.term(b, st)
        if ot is not None: t = self.mkterm('item', ot, k.term)
    return AV(out.objs, out.labs | klabs | (b.labs if not all(o.kind in ('list', 'tuple', 'dict', 'gen') for o in b.objs) else b.labs), t)

  def term(self, v, st):
    if len(v.objs) == 1:
      o = next(iter(v.objs))
      if o.kind == 'arr':
        t = self.getf(st, o, 'term')
        if t == 'top': return None
        if t is not None: return t
      elif o.kind == 'sym' and v.term is None and '[*]' not in o.info['path'] and '<' not in o.info['path'] and not o.info['path'].startswith('new:'):
        return ('sym', o.info['path'])
    return v.term
  def mkterm(self, *xs):
    if any(x is None for x in xs): return None
    def size(t): return 1 if not isinstance(t, tuple) else 1 + sum(size(x) for x in t)
    if sum(size(x) for x in xs) > 120: return None
    return tuple(xs)

  def setitem(self, b, k, v, st, node, sl=None, aug=False):
    v = v.withlabs(st.ctl)
    self.mutate(b, 'item assignment', node, st, v, key=k)
    c = self.constval(k, _MISSING)
    for o in b.objs:
      if o.kind == 'dict':
        if c is not _MISSING and isinstance(c, (str, int, type(None), float)):
          if len(b.objs) > 1 or (self.loopdepth and o.info.get('node') is None):
            self.setf(st, o, ('k', c), join(self.getf(st, o, ('k', c)), v) if self.getf(st, o, ('k', c)) is not None else v)
          else: self.setf(st, o, ('k', c), v)
        else:
          self.setf(st, o, 'elem', join(v, self.getf(st, o, 'elem')))
          self.setf(st, o, 'kelem', join(k, self.getf(st, o, 'kelem')))
          self.setf(st, o, 'open', True); self.setf(st, o, 'weak', True)
      elif o.kind in ('list',):
        q = self.seq(o, st)
        if q is not None and isinstance(c, int) and -len(q) <= c < len(q) and len(b.objs) == 1:
          q = list(q); q[c] = v; self.setf(st, o, 'seq', tuple(q))
        else:
          isl = any(x.kind == 'slice' for x in k.objs)
          e = self.elem(v, st) if isl else v
          if q is not None and not isl:
            self.setf(st, o, 'seq', tuple(join(x, e) for x in q))
          else: self.setf(st, o, 'seq', False)
          self.setf(st, o, 'elem', join(e, self.getf(st, o, 'elem')))
      elif o.kind == 'arr':
        full = any(x.kind == 'const' and x.info['value'] is Ellipsis for x in k.objs) or (len(k.objs) == 1 and next(iter(k.objs)).kind == 'slice' and all(self.constval(x, 0) is None for x in self.getf(st, next(iter(k.objs)), 'seq', (k,))))
        self.setf(st, o, 'elem', AV(E, self.getf(st, o, 'elem', NOTHING).labs | self.labs(v, st) | frozenset(self.deep_labs(k, st, depth=3))))
        tv = self.term(v, st)
        self.setf(st, o, 'term', tv if full and tv is not None else 'top')
      elif o.kind == 'gdict':
        if c is not _MISSING: self.setf(st, o.info['mod'], c, v)
      elif o.kind == 'inst':
        m = self.getattr(self.av(o), '__setitem__', st, node, quiet=True)
        if m is not None and m.objs: self.call(m, [k, v], {}, node, st)
      elif o.kind == 'sym' and o.info['type'].startswith('dict') and c is not _MISSING:
        self.setf(st, o, ('k', c), v)

  def mutate(self, b, how, node, st, value=None, key=None):
    self.fresh = None
    for o in b.objs:
      if o.kind in ('const', 'scalar', 'unk', 'ext'): continue
      self.event('mutate', node, obj=o, how=how, value=value, key=key, st=st, labs=b.labs)
      if o.kind == 'set' and self.getf(st, o, 'exact') is not None: self.setf(st, o, 'exact', 'top')

  # ---------------------------------------------------------------- attributes
  def mro(self, c):
    r = self.mrocache.get(c)
    if r is None:
      r = [c]
      seqs = [self.mro(b) for b in c.info.get('bases', []) if b.kind == 'class'] + [[b for b in c.info.get('bases', []) if b.kind == 'class']]
      seqs = [list(s) for s in seqs if s]
      while seqs:
        for s in seqs:
          h = s[0]
          if not any(h in t[1:] for t in seqs): break
        else: h = seqs[0][0]
        r.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
      self.mrocache[c] = r
    return r
  def classattr(self, c, name, st, after=None):
    on = after is None
    for k in self.mro(c):
      if on:
        v = self.getf(st, k, name)
        if v is not None:
          if any(o.kind == 'absent' for o in v.objs):
            v = AV(frozenset(o for o in v.objs if o.kind != 'absent'), v.labs)
          return v
      elif k is after: on = True
    return None
  def classattr_owner(self, c, name, st):
    for k in self.mro(c):
      if self.getf(st, k, name) is not None: return k
    return None
  def issub(self, c, d): return d in self.mro(c)
  def bindm(self, v, self_av, cls_av, st, node):
    """Descriptor protocol on attribute lookup through an instance."""
    objs = set(); extra = None
    for o in v.objs:
      if o.kind == 'func': objs.add(self.obj('bound', (o, self_av.objs, self_av.labs), func=o, me=self_av))
      elif o.kind == 'static': objs |= o.info['f'].objs
      elif o.kind == 'clsm':
        for f in o.info['f'].objs:
          objs.add(self.obj('bound', (f, cls_av.objs), func=f, me=cls_av) if f.kind == 'func' else f)
      elif o.kind == 'prop':
        g = o.info['fget']
        r = self.call(g, [self_av], {}, node or self.cur().node, st)
        extra = r if extra is None else join(extra, r)
      else: objs.add(o)
    r = AV(frozenset(objs), v.labs, v.term if not extra else None)
    return r if extra is None else (join(r, extra) if objs else extra)

  def getattr(self, b, name, st, node, quiet=False):
    out = None
    if node is not None: self.event('getattr', node, base=b, name=name, st=st)
    for o in b.objs:
      r = self.getattr1(o, name, st, node, b)
      if r is None:
        if quiet: continue
        r = self.unknown(b.labs)
      out = r if out is None else join(out, r)
    if out is None: return AV() if not quiet else None
    t = out.term
    if t is None and b.term is not None and not any(o.kind in ('func', 'bound', 'class') for o in out.objs):
      bt = self.term(b, st)
      t = self.mkterm('attr', bt, name) if bt is not None else None
    return AV(out.objs, out.labs | (b.labs if any(o.kind in ('arr', 'unk', 'sym', 'scalar', 'bound') for o in b.objs) and not all(o.kind == 'sym' for o in b.objs) and not (self.tm is not None and name in self.tm.bare) else E), t)

  def getattr1(self, o, name, st, node, b):
    k = o.kind
    if self.tm is not None:
      r = self.tm.attr(self, o, name, st)
      if r is not None: return r
    if k == 'inst':
      v = self.getf(st, o, name)
      if v is not None and not any(x.kind == 'absent' for x in v.objs): return v
      cls = o.info['cls']
      if name == '__class__': return self.av(cls)
      if name == '__dict__': return self.unknown()
      cv = self.classattr(cls, name, st)
      if cv is not None: cv = self.bindm(cv, self.av(o, E), self.av(cls), st, node)
      if v is not None:
        v = AV(frozenset(x for x in v.objs if x.kind != 'absent'), v.labs)
        return join(v, cv) if cv is not None else v
      if cv is not None: return cv
      ga = self.classattr(cls, '__getattr__', st)
      if self.isvarclass(cls) and node is not None:
        return self.var_dynattr(o, name, st)
      if any(x.kind == 'ext' for kk in self.mro(cls) for x in kk.info.get('bases', [])): return self.unknown()
      if ga is not None: return self.unknown()
      return None
    if k == 'class':
      if name == '__name__': return self.getf(st, o, '__name__')
      if name == '__dict__':
        return self.unknown()
      if name == '__mro__': return self.mklist('tuple', node or o, [self.av(x) for x in self.mro(o)], st)
      if name == '__bases__': return self.mklist('tuple', node or o, [self.av(x) for x in o.info['bases']], st)
      v = self.classattr(o, name, st)
      if v is None:
        if any(x.kind == 'ext' for kk in self.mro(o) for x in kk.info.get('bases', [])): return self.unknown()
        return None
      objs = set()
      for x in v.objs:
        if x.kind == 'static': objs |= x.info['f'].objs
        elif x.kind == 'clsm':
          for f in x.info['f'].objs: objs.add(self.obj('bound', (f, frozenset((o,))), func=f, me=self.av(o)) if f.kind == 'func' else f)
        else: objs.add(x)
      return AV(frozenset(objs), v.labs, v.term)
    if k == 'module':
      v = self.getf(st, o, name)
      if v is not None: return v
      sub = o.info['name'] + '.' + name
      if sub in self.prog.modules and (self.modinit or sub in self.modstate): return self.av(self.run_module(sub, st))
      if sub in models.EXTMODS: return self.ext(sub)
      if node is not None: self.event('missing_attr', node, obj=o, name=name)
      return None
    if k == 'ext':
      return self.ext_attr(o, name)
    if k == 'super':
      cls = o.info['cls']
      v = self.classattr(cls, name, st, after=o.info['after'])
      if v is None: return self.ext('builtins.object.' + name)
      return self.bindm(v, o.info['me'], self.av(cls), st, node)
    if k == 'sym': return self.symattr(o, name, st, node)
    if k == 'func':
      v = self.getf(st, o, name)
      if v is not None: return v
      if name in ('__name__', '__doc__', '__module__', '__qualname__'): return self.scalar()
      if name == '__code__': return self.av(self.obj('code', (o,), func=o))
      if name in ('__defaults__', '__globals__', '__dict__', '__closure__'): return self.unknown()
      return None
    if k == 'code':
      fo = o.info['func']; a = fo.info['node'].args
      ps = [x.arg for x in a.posonlyargs + a.args]
      if name == 'co_argcount': return self.mk_const(len(ps))
      if name == 'co_name': return self.mk_const(fo.info['name'])
      if name == 'co_varnames':
        ps += [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x is not None]
        ps += sorted(local_names(fo.info["node"])[0] - set(ps)) if not isinstance(fo.info['node'], ast.Lambda) else []
        return self.mklist('tuple', node or fo.info['node'], [self.mk_const(p) for p in ps], st, tag=('co', fo))
      return self.unknown()
    if k == 'bound':
      if name == '__func__': return self.av(o.info['func']) if isinstance(o.info['func'], Obj) else self.unknown()
      if name == '__self__': return o.info['me'] if 'me' in o.info else self.unknown()
      return self.getattr1(o.info['func'], name, st, node, b) if isinstance(o.info['func'], Obj) else self.unknown()
    if k in ('arr',):
      if name in models.ARR_VIEW_ATTRS: return self.av(o)
      if name in ('shape', 'strides'): return self.unknown(self.labs(self.av(o), st))
      if name in ('dtype', 'ndim', 'size', 'itemsize', 'nbytes'): return self.scalar(E)
      if name == 'flags': return self.av(self.obj('bound', (o, 'flags'), func='flags', me=self.av(o)))
      return self.av(self.obj('bmeth', (o, name), recv=self.av(o, self.labs(self.av(o), st)), name=name))
    if k in ('list', 'dict', 'tuple', 'set', 'gen', 'slice', 'const', 'scalar'):
      if k == 'const' and o.info['value'] is None: return None
      if k == 'slice' and name in ('start', 'stop', 'step'):
        q = self.getf(st, o, 'seq')
        return q[('start', 'stop', 'step').index(name)] if q else self.unknown()
      if k == 'scalar': return self.unknown_attr(o, name, b)
      return self.av(self.obj('bmeth', (o, name), recv=self.av(o), name=name))
    if k == 'unk': return self.unknown_attr(o, name, b)
    return self.unknown()
  def unknown_attr(self, o, name, b):
    return AV(frozenset((self.obj('bmeth', (o, name, b.labs), recv=AV(frozenset((o,)), b.labs), name=name),)), b.labs)
  def isvarclass(self, c):
    v = self.find_class_any('pygeode.var.Var')
    return v is not None and v in self.mro(c)
  def dynhas(self, o, name, node, st):
    """Does the __getattr__ of the object's class know the name?  True, False or None (not decided)."""
    ax = self.getf(st, o, 'axes')
    if ax is None or len(ax.objs) != 1 or self.seq(next(iter(ax.objs)), st) is None: return None
    ga = self.classattr(o.info['cls'], '__getattr__', st)
    f = [x for x in ga.objs if x.kind == 'func']
    if len(f) != 1 or len(ga.objs) != 1 or any(fr.node is f[0].info['node'] for fr in self.stack): return None
    ls, self.listeners = self.listeners, []
    kt, mt, rt = self.keythrow, self.maythrow, self.raised
    try:
      r = self.call_func(f[0], [self.av(o, E), self.mk_const(name)], {}, node, st.copy())
      return True if self.raised == rt else None
    except Stop: return False
    finally: self.listeners = ls; self.keythrow, self.maythrow = kt, mt
  def var_dynattr(self, o, name, st):
    """var.lat and the like: the axis of that name; on an axis, first its auxiliary array or attribute of that name."""
    for attr in ('auxarrays', 'auxatts'):
      d = self.getf(st, o, attr)
      if d is None: continue
      for x in d.objs:
        if x.kind != 'dict': continue
        f = self.fields(st, x)
        v = f.get(('k', name))
        if v is not None: return v
        if f.get('elem') is not None or f.get('open'): return join(f['elem'], self.unknown()) if f.get('elem') is not None else self.unknown(d.labs)
    ax = self.getf(st, o, 'axes')
    for t in (ax.objs if ax is not None and len(ax.objs) == 1 else ()):
      q = self.seq(t, st)
      if q is None: break
      hit = [a for a in q if any((self.getf(st, x, 'name') or AV()).objs == self.mk_const(name).objs for x in a.objs if x.kind == 'inst')]
      if len(hit) == 1: return hit[0]
    if ax is None: return self.unknown()
    e = self.elem(ax, st)
    return e if e.objs else self.unknown()
  def ext_attr(self, o, name):
    n = o.info['name'] + '.' + name
    if o.info['name'] == 'numpy.ndarray' and not hasattr(_np.ndarray, name): return None
    if name == '__name__':
      x = None
      if o.info['name'].startswith('numpy.'):
        x = _np
        for p in o.info['name'].split('.')[1:]: x = getattr(x, p, None)
      return self.mk_const(getattr(x, '__name__', o.info['name'].rsplit('.', 1)[-1]))
    if n in ('numpy.nan', 'numpy.inf', 'numpy.pi', 'math.pi', 'numpy.e', 'numpy.newaxis'):
      if name == 'newaxis': return self.mk_const(None)
      return AV(frozenset((self.obj('scalar', ('num',)),)), frozenset(('op:' + n,)), ('ext', n))
    return self.ext(n)

  def symattr(self, o, name, st, node):
    p, t = o.info['path'], o.info['type'].rstrip('?')
    v = self.getf(st, o, name)        # overridden by an assignment in this analysis
    if v is not None: return v
    if 'orig' in o.info:              # a shallow copy shares the original's attributes
      r = self.symattr(o.info['orig'], name, st, node)
      if any(x.kind in ('bound', 'bmeth') for x in r.objs): return self.unknown(r.labs) if self.typeclass(t) is None else self.rebind(r, o, st, node, name)
      return r
    cls = self.typeclass(t)
    if cls is not None:
      tab = None
      for c in self.mro(cls):
        tab = self.symtypes.get(c.info['qual'])
        if tab and name in tab: break
      if tab and name in tab:
        return self.sym('%s.%s' % (p, name), tab[name])
      cv = self.classattr(cls, name, st)
      if cv is not None:
        kinds = {x.kind for x in cv.objs}
        if kinds & {'func', 'static', 'clsm', 'prop', 'bound'}:
          return self.bindm(cv, self.av(o, frozenset((p,))), self.av(cls), st, node)
        if any(x.kind == 'class' for x in cv.objs): return cv
        ty = 'any'
        if kinds & {'dict'}: ty = 'dict'
        elif kinds & {'list'}: ty = 'list'
        elif all(x.kind == 'const' and isinstance(x.info['value'], str) for x in cv.objs): ty = 'str'
        elif all(x.kind == 'const' and isinstance(x.info['value'], (int, float)) and x.info['value'] is not None for x in cv.objs): ty = 'num'
        return self.sym('%s.%s' % (p, name), ty)
      if name == '__class__': return AV(frozenset((cls,)), frozenset((p + '.__class__',)), ('attr', ('sym', p), '__class__'))
      if name == '__dict__': return self.sym(p + '.__dict__', 'dict')
      if t == 'Dataset': return self.sym('%s.%s' % (p, name), 'any')
      if t in ('Var', 'Axis') and not name.startswith('_'):
        ms = self.submethods(cls, name, st)
        if ms:
          out = AV()
          for c, m in ms: out = join(out, self.bindm(m, self.av(self.typed(o, c), frozenset((p,))), self.av(c), st, node))
          return out
        return self.sym('%s.axes[*]' % p, 'Axis')
      return self.sym('%s.%s' % (p, name), 'any')
    if t == 'arr':
      if name in models.ARR_VIEW_ATTRS: return self.av(o, frozenset((p,)))
      if name == 'shape': return self.sym(p + '.shape', 'tuple:int')
      if name in ('ndim', 'size', 'dtype', 'itemsize', 'nbytes'): return self.sym('%s.%s' % (p, name), 'num')
      if name == 'flags': return self.av(self.obj('bound', (o, 'flags'), func='flags', me=self.av(o)))
      return self.av(self.obj('bmeth', (o, name), recv=self.av(o, frozenset((p,))), name=name))
    if t.split(':')[0] in ('dict', 'list', 'tuple', 'str', 'num', 'int', 'tuple('):
      return self.av(self.obj('bmeth', (o, name), recv=self.av(o, frozenset((p,))), name=name))
    if t.startswith('tuple('): return self.av(self.obj('bmeth', (o, name), recv=self.av(o, frozenset((p,))), name=name))
    # unknown type: attribute or method, decided when called
    if len(p) > 160: return self.unknown(frozenset((p,)))
    return self.sym('%s.%s' % (p, name), 'any')

  def typed(self, o, c):
    """The symbolic object o, known to be an instance of c."""
    t = self.typename(c)
    if 'orig' in o.info: return o
    return self.obj('sym', (o.info['path'], t), path=o.info['path'], type=t)
  def submethods(self, cls, name, st):
    """(class, method) for the definitions of a method in subclasses of cls that cls itself lacks."""
    k = (cls, name)
    if k not in self.C:
      r = []
      for c in sorted((o for o in self.intern.values() if o.kind == 'class'), key=lambda o: o.n):
        if c is not cls and self.issub(c, cls):
          own = self.getf(st, c, name)
          if own is not None and any(x.kind == 'func' for x in own.objs): r.append((c, own))
      self.C[k] = r
    return self.C[k]

  def rebind(self, r, o, st, node, name):
    cls = self.typeclass(o.info['type'].rstrip('?'))
    cv = self.classattr(cls, name, st)
    return self.bindm(cv, self.av(o, r.labs), self.av(cls), st, node) if cv is not None else r

  def setattr(self, b, name, v, st, node):
    v = v.withlabs(st.ctl)
    # alternatives of one copy() call: each exists only on the path that made it
    only = len(b.objs) == 1 or (all(o.key[1] in ('copy', 'copyof') for o in b.objs) and len({o.key[2:4] for o in b.objs}) == 1)
    for o in b.objs:
      self.event('setattr', node, obj=o, attr=name, value=v, st=st)
      if o.kind in ('inst', 'class', 'module', 'func'):
        if only: self.setf(st, o, name, v)
        else: self.setf(st, o, name, join(v, self.getattr1(o, name, st, None, b)))
        if o.kind == 'class': self.mrocache = self.mrocache
      elif o.kind == 'sym': self.setf(st, o, name, v if only else join(v, self.getattr1(o, name, st, None, b)))
      elif o.kind == 'bound' and o.info['func'] == 'flags':
        self.event('setflags', node, obj=o.info['me'], attr=name, value=v, st=st)
      elif o.kind == 'arr' and name == 'shape': pass

  # ---------------------------------------------------------------- expressions
  def ev(self, e, st):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if not isinstance(e, self.QUIET): self.maythrow += 1
    if m is None: return self.unknown()
    return m(e, st)
  maythrow = 0         # evaluations so far that could have raised
  raised = 0           # raise statements so far
  keythrow = 0         # ... a KeyError or an IndexError, or anything from code that is not followed
  SAFECALLS = frozenset('builtins.' + x for x in ('isinstance', 'issubclass', 'len', 'enumerate', 'list', 'tuple', 'type', 'str', 'id', 'hasattr', 'bool'))
  QUIET = (ast.Constant, ast.Name, ast.BoolOp, ast.Tuple, ast.List, ast.Dict, ast.IfExp, ast.Compare, ast.UnaryOp, ast.Lambda)
  QUIETST = (ast.Assign, ast.If, ast.Pass, ast.Continue, ast.Break, ast.Return, ast.Expr, ast.While)
  def e_Constant(self, e, st): return self.mk_const(e.value)
  def e_Name(self, e, st): return self.lookup(e.id, st, e)
  def e_Attribute(self, e, st):
    b = self.ev(e.value, st)
    if self.tm is not None and self.isconst(b) and self.constval(b, 0) is None and not hasattr(None, e.attr):
      self.keythrow += 1
      raise Stop()
    return self.getattr(b, e.attr, st, e)
  def e_Subscript(self, e, st):
    f = self.fresh
    # what was put there last, nothing else having happened since
    if f is not None and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Name) and f[:3] == (self.cur(), e.value.id, e.slice.id): return f[3]
    b = self.ev(e.value, st); k = self.ev(e.slice, st)
    self.keythrow += 1
    return self.getitem(b, k, st, e)
  def e_Slice(self, e, st):
    xs = tuple(self.ev(x, st) if x is not None else self.NONE for x in (e.lower, e.upper, e.step))
    o = self.alloc('slice', e, st)
    st.heap[o] = {'seq': xs}
    return AV(frozenset((o,)), frozenset().union(*[x.labs for x in xs]), self.mkterm('slice', *[x.term for x in xs]))
  def elts(self, elts, st):
    out = []; known = True; openel = None
    for x in elts:
      if isinstance(x, ast.Starred):
        v = self.ev(x.value, st)
        q = self.loop_iters(v, st)
        if q is None:
          known = False; out.append(self.elem(v, st))
        else: out += [y.withlabs(v.labs) for y in q]
      else: out.append(self.ev(x, st))
    return out, known
  def e_Tuple(self, e, st):
    xs, known = self.elts(e.elts, st)
    return self.mklist('tuple', e, xs, st) if known else self.mkopen('tuple', e, joinall(xs), st)
  def e_List(self, e, st):
    xs, known = self.elts(e.elts, st)
    return self.mklist('list', e, xs, st) if known else self.mkopen('list', e, joinall(xs), st)
  def e_Set(self, e, st):
    xs, known = self.elts(e.elts, st)
    r = self.mkopen('set', e, joinall(xs), st)
    self.set_exact(r, xs if known is not False else None, st)
    return r
  def set_exact(self, r, xs, st):
    if xs is None: return
    c = [self.exactval(x, st) for x in xs]
    if _MISSING not in c:
      for o in r.objs: self.setf(st, o, 'exact', frozenset(c))
  def e_Dict(self, e, st):
    o = self.alloc('dict', e, st)
    f = {}
    for k, v in zip(e.keys, e.values):
      vv = self.ev(v, st)
      if k is None:
        for y in vv.objs:
          for kk, x in self.fields(st, y).items(): f[kk] = x
          if y.kind != 'dict': f['open'] = True; f['elem'] = join(self.unknown(vv.labs), f.get('elem'))
        continue
      kv = self.ev(k, st); c = self.constval(kv, _MISSING)
      if c is not _MISSING: f[('k', c)] = vv
      else:
        f['open'] = True; f['weak'] = True
        f['elem'] = join(vv, f.get('elem')); f['kelem'] = join(kv, f.get('kelem'))
    st.heap[o] = f
    return self.av(o)
  def e_JoinedStr(self, e, st):
    labs = set(); text = ''
    for v in e.values:
      if isinstance(v, ast.FormattedValue):
        x = self.ev(v.value, st)
        labs |= self.labs(x, st)
        c = self.constval(x, _MISSING); spec = ''
        if v.format_spec is not None:
          spec = self.constval(self.ev(v.format_spec, st), _MISSING)
        if text is not None and isinstance(c, (str, int, float, bool)) and isinstance(spec, str):
          try: text += format({115: str, 114: repr, 97: ascii}.get(v.conversion, lambda y: y)(c), spec)
          except Exception: text = None
        else: text = None
      elif text is not None: text += str(v.value)
    if text is not None: return self.mk_const(text).withlabs(frozenset(labs))
    return self.scalar(frozenset(labs))
  def e_BinOp(self, e, st):
    a = self.ev(e.left, st); b = self.ev(e.right, st)
    return self.binop(type(e.op).__name__, a, b, e, st)
  def e_UnaryOp(self, e, st):
    v = self.ev(e.operand, st)
    op = type(e.op).__name__
    if op == 'Not':
      t = self.truth(v, st)
      return self.mk_const(not t).withlabs(v.labs) if t is not None else self.scalar(v.labs, self.mkterm('not', v.term))
    c = self.constval(v, _MISSING)
    if isinstance(c, (int, float)):
      return self.mk_const(-c if op == 'USub' else c if op == 'UAdd' else ~c if isinstance(c, int) else c).withlabs(v.labs)
    dn = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
    out = None
    for o in v.objs:
      if o.kind in ('inst', 'sym') and (o.kind == 'inst' or self.typeclass(o.info['type']) is not None):
        m = self.getattr(self.av(o, v.labs), dn, st, e, quiet=True)
        r = self.call(m, [], {}, e, st) if m is not None and m.objs else self.unknown(v.labs)
      elif o.kind == 'arr' or (o.kind == 'sym' and o.info['type'] == 'arr'): r = self.mkarr(e, self.labs(v, st), st)
      else: r = self.scalar(v.labs) if o.kind in ('scalar', 'const') else self.unknown(v.labs)
      out = r if out is None else join(out, r)
    if out is None: return AV()
    return AV(out.objs, out.labs, out.term if out.term is not None else self.mkterm('u' + op, self.term(v, st)))
  def e_BoolOp(self, e, st):
    out = None; labs = set()
    isand = isinstance(e.op, ast.And)
    q = st.copy()
    ctl = q.ctl
    for i, x in enumerate(e.values):
      v = self.ev(x, q)
      labs |= v.labs
      t = self.truth(v, q)
      last = i == len(e.values) - 1
      if last: out = v if out is None else join(out, v)
      else:
        if (t is True and isand) or (t is False and not isand): pass
        else:
          vv = AV(frozenset(o for o in v.objs if self.truth1(o, q) is not isand), v.labs, v.term)
          out = vv if out is None else join(out, vv)
        if (t is False and isand) or (t is True and not isand): break
        q.ctl = q.ctl | self.testlabs(v, q)
        if self.refine(x, q, isand) is False: break
    q.ctl = ctl
    # keep side effects, not the narrowing
    for o, f in q.heap.deltas(st.heap)[0].items():
      if f is None: continue
      g = st.heap.get(o)
      if g is None or (g is not f and o.kind != 'frame'): st.heap[o] = f
      elif o.kind == 'frame':
        for kk in f:
          if kk not in g: self.setf(st, o, kk, f[kk])
    return AV(out.objs if out else E, frozenset(labs), out.term if out else None)
  def e_Compare(self, e, st):
    vals = [self.ev(x, st) for x in [e.left] + e.comparators]
    if not all(self.isconst(v) or isinstance(o, (ast.Is, ast.IsNot)) for v, o in zip(vals[1:], e.ops)) or not self.isconst(vals[0]): self.maythrow += 1
    labs = frozenset().union(*[self.labs(v, st) for v in vals])
    if self.tm is not None: labs = self.tm.compared(labs)
    self.event('compare', e, values=vals, st=st)
    if len(vals) > 2:
      cs = [self.constval(v, _MISSING) for v in vals]
      if _MISSING not in cs and all(isinstance(c, (int, float, str)) for c in cs):
        try:
          import operator as O
          return self.mk_const(all({'Eq': O.eq, 'NotEq': O.ne, 'Lt': O.lt, 'LtE': O.le, 'Gt': O.gt, 'GtE': O.ge}[type(o).__name__](x, y) for o, x, y in zip(e.ops, cs, cs[1:]))).withlabs(labs)
        except Exception: pass
    if len(vals) == 2:
      a, b = vals; op = e.ops[0]
      if isinstance(op, (ast.Is, ast.IsNot)):
        r = self.cmp_is(a, b)
        if r is not None: return self.mk_const(r if isinstance(op, ast.Is) else not r).withlabs(labs)
        return self.scalar(labs, self.mkterm('is', a.term, b.term))
      ca, cb = self.constval(a, _MISSING), self.constval(b, _MISSING)
      if ca is not _MISSING and cb is not _MISSING:
        try:
          r = {'Eq': lambda: ca == cb, 'NotEq': lambda: ca != cb, 'Lt': lambda: ca < cb, 'LtE': lambda: ca <= cb, 'Gt': lambda: ca > cb,
               'GtE': lambda: ca >= cb, 'In': lambda: ca in cb, 'NotIn': lambda: ca not in cb}[type(op).__name__]()
          return self.mk_const(bool(r)).withlabs(labs)
        except Exception: pass
      if isinstance(op, (ast.Eq, ast.NotEq)):
        r = self.known_equal(a, b, st)
        if r is not None: return self.mk_const(r == isinstance(op, ast.Eq)).withlabs(labs)
        # constants of both sides known but disjoint / None against non-None
        if a.objs and b.objs and all(o.kind == 'const' for o in a.objs) and all(o.kind == 'const' for o in b.objs):
          if not ({o.info['value'] for o in a.objs} & {o.info['value'] for o in b.objs}): return self.mk_const(isinstance(op, ast.NotEq)).withlabs(labs)
        for x, y in ((a, b), (b, a)):
          if self.constval(x, 0) is None and y.objs and all(self.isnone(o) is False for o in y.objs) and not any(o.kind in ('inst',) for o in y.objs):
            return self.mk_const(isinstance(op, ast.NotEq)).withlabs(labs)
        dn = '__eq__' if isinstance(op, ast.Eq) else '__ne__'
      elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and self.setval(a, st) is not None and self.setval(b, st) is not None:
        x, y = self.setval(a, st), self.setval(b, st)
        return self.mk_const({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[type(op).__name__]).withlabs(labs)
      if not isinstance(op, (ast.Eq, ast.NotEq)): dn = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}.get(type(op).__name__)
      if isinstance(op, (ast.In, ast.NotIn)):
        if ca is not _MISSING and len(b.objs) > 1 and all(o.kind in ('list', 'tuple', 'dict') for o in b.objs):
          qs = [self.seq(o, st) for o in b.objs]
          if all(q is not None and all(self.isconst(x) for x in q) for q in qs):
            rs = {any(self.constval(x) == ca for x in q) for q in qs}
            if len(rs) == 1: return self.mk_const(rs.pop() == isinstance(op, ast.In)).withlabs(labs)
        if ca is not _MISSING and len(b.objs) == 1:
          o = next(iter(b.objs))
          q = self.seq(o, st)
          sv = self.getf(st, o, 'exact') if o.kind == 'set' else None
          if isinstance(sv, frozenset) and _MISSING not in sv and all(c[0] == 'c' for c in sv):
            return self.mk_const((('c', ca) in sv) == isinstance(op, ast.In)).withlabs(labs)
          if q is not None and o.kind in ('list', 'tuple', 'dict') and all(self.isconst(x) for x in q):
            r = any(self.constval(x) == ca for x in q)
            return self.mk_const(r == isinstance(op, ast.In)).withlabs(labs)
          if self.libcall is not None and (q is not None or o.kind in ('list', 'tuple', 'set', 'gen')):
            # every possible element stands for one that is there
            if any(x.kind == 'const' and x.info['value'] == ca for v in (q if q is not None else [self.elem(b, st)]) for x in v.objs):
              return self.mk_const(isinstance(op, ast.In)).withlabs(labs)
        if a.objs and len(b.objs) == 1 and all(o.kind in ('inst', 'class') for o in a.objs) and len(a.objs) <= 3:
          o = next(iter(b.objs)); q = self.seq(o, st) if o.kind in ('list', 'tuple') else None
          i = self.find_in(q, a, st, e) if q is not None else None
          if i is not None: return self.mk_const((i >= 0) == isinstance(op, ast.In)).withlabs(labs)
        return self.scalar(labs, self.mkterm('cmp', type(op).__name__, a.term, b.term))
      if dn:
        out = None
        # Python asks the operand of the derived class first
        def tc(v):
          o = next(iter(v.objs)) if len(v.objs) == 1 else None
          return o.info['cls'] if o is not None and o.kind == 'inst' else self.typeclass(o.info['type']) if o is not None and o.kind == 'sym' else None
        A, B = tc(a), tc(b)
        if A is not None and B is not None and A is not B and hasattr(B, 'info') and self.issub(B, A) and dn in ('__eq__', '__ne__'): a, b = b, a
        for o in a.objs:
          if (o.kind == 'inst') or (o.kind == 'sym' and self.typeclass(o.info['type']) is not None):
            m = self.getattr(self.av(o, a.labs), dn, st, e, quiet=True)
            if (m is None or not m.objs) and dn == '__ne__':
              m = self.getattr(self.av(o, a.labs), '__eq__', st, e, quiet=True)
            r = self.call(m, [b], {}, e, st) if m is not None and m.objs else self.scalar(labs)
          elif o.kind == 'arr' or (o.kind == 'sym' and o.info['type'] == 'arr') or any(x.kind == 'arr' for x in b.objs): r = self.mkarr(e, labs, st)
          elif o.kind in ('const', 'scalar', 'list', 'tuple', 'dict', 'class', 'func'):
            bi = [x for x in b.objs if x.kind == 'inst' or (x.kind == 'sym' and x.info['type'] in ('Var', 'Axis'))]
            r = self.scalar(labs) if not bi else self.unknown(labs)
          else: r = self.unknown(labs)
          out = r if out is None else join(out, r)
        if out is not None:
          t = self.mkterm('cmp', type(op).__name__, self.term(a, st), self.term(b, st))
          return AV(out.objs, out.labs | labs, out.term if out.term is not None else t)
    return self.scalar(labs)
  jumpctl = False             # what follows a branch that leaves the block depends on its test
  exactis = False             # `x is True` is decided for an object that cannot be the constant
  dataonly = False            # what a test depends on is not passed on to what is done under it
  def testlabs(self, v, st): return E if self.dataonly else self.labs(v, st)
  def find_in(self, q, v, st, node, there=False):
    """Position of an object in a known sequence, -1 if it is not there, None if undecided."""
    if len(q) > 12: return None
    may = []
    for i, x in enumerate(q):
      r = self.is_item(x, v, st, node)
      if r is None and not there: return None
      if r is None: may.append(i)
      if r: return i if not may else None
    return -1 if not may else may[0] if len(may) == 1 else None
  def is_item(self, x, v, st, node):
    """Whether an element of a sequence is the object looked for: True, False or None."""
    if not x.objs or not v.objs: return None
    rs = set()
    for a in sorted(x.objs, key=lambda o: o.n):
      for b in sorted(v.objs, key=lambda o: o.n):
        y, w = self.av(a), self.av(b)
        if self.cmp_is(y, w) is True: r = True
        else:
          r = self.known_equal(y, w, st)
          if r is None and a.kind == 'inst':
            m = self.getattr(y, '__eq__', st, node, quiet=True)
            z = self.call(m, [w], {}, node, st) if m is not None and m.objs else None
            r = self.truth(z, st) if z is not None else None
        rs.add(r)
        if r is None: return None
    return rs.pop() if len(rs) == 1 else None
  oracle = None
  tm = None                   # model of array types and of foreign types
  libcall = None              # handler of calls into a foreign library
  sort_reverses = False  # follow executions in which sorting reverses the order
  salt = 0           # tells apart repeated calls from outside
  def exactval(self, v, st, depth=3):
    """A hashable stand-in equal for two values exactly when they are equal, or _MISSING."""
    if len(v.objs) != 1 or not depth: return _MISSING
    o = next(iter(v.objs))
    if o.kind == 'const': return ('c', o.info['value'])
    if o.kind == 'class': return ('class', o)
    if o.kind == 'set':
      x = self.getf(st, o, 'exact')
      return ('set', x) if isinstance(x, frozenset) else _MISSING
    if o.kind in ('list', 'tuple'):
      q = self.seq(o, st)
      if q is None: return _MISSING
      xs = [self.exactval(x, st, depth - 1) for x in q]
      return _MISSING if _MISSING in xs else (o.kind, tuple(xs))
    if o.kind == 'dict':
      ks = self.dictkeys(o, st)
      if ks is None: return _MISSING
      f = self.fields(st, o)
      xs = [(k, self.exactval(f[('k', k)], st, depth - 1)) for k in ks]
      return _MISSING if any(x is _MISSING for k, x in xs) else ('dict', frozenset(xs))
    return _MISSING
  def dictkeys(self, o, st):
    """The exact keys of a dictionary, or None."""
    f = self.fields(st, o)
    if f.get('open') or f.get('elem') is not None or f.get('maybe'): return None
    return [x[1] for x in f if isinstance(x, tuple) and x[0] == 'k']
  def setval(self, v, st):
    x = self.exactval(v, st)
    return x[1] if x is not _MISSING and x[0] == 'set' else None
  def known_equal(self, a, b, st):
    """Whether two plain values are equal: True, False or None."""
    if self.tm is not None:
      r = self.tm.same(self, a, b)
      if r is not None: return r
    x, y = self.exactval(a, st), self.exactval(b, st)
    if x is not _MISSING and y is not _MISSING: return x == y
    if len(a.objs) == 1 and len(b.objs) == 1:
      o, p = next(iter(a.objs)), next(iter(b.objs))
      if o.kind == 'dict' and p.kind == 'dict':
        j, k = self.dictkeys(o, st), self.dictkeys(p, st)
        if j is not None and k is not None:
          if set(j) != set(k): return False
          f, g = self.fields(st, o), self.fields(st, p)
          r = [self.known_equal(f[('k', n)], g[('k', n)], st) for n in j]
          if False in r: return False
          if None not in r: return True
          return None
    if self.oracle is not None and not any(o.kind == 'inst' or self.typeclass(o.info['type']) is not None for o in a.objs | b.objs if o.kind in ('inst', 'sym')): return self.oracle(self, a, b, st, '==')
    return None
  def cmp_is(self, a, b):
    if len(a.objs) == 0 or len(b.objs) == 0: return None
    for x, y in ((a, b), (b, a)):
      if self.constval(x, 0) is None and self.isconst(x):
        r = {self.isnone(o) for o in y.objs}
        if r == {True}: return True
        if r == {False}: return False
        return None
    if len(a.objs) == 1 and len(b.objs) == 1:
      o, p = next(iter(a.objs)), next(iter(b.objs))
      if o.kind in ('const', 'class', 'func', 'module', 'ext') and p.kind in ('const', 'class', 'func', 'module', 'ext'): return o is p
      if o is p and o.kind in ('inst', 'list', 'dict', 'set', 'sym') and self.single(o): return True
    elif all(o.kind in ('class', 'const', 'ext') for o in a.objs | b.objs) and not (a.objs & b.objs): return False
    if all(o.kind in ('inst', 'list', 'dict', 'set') for o in a.objs | b.objs) and not (a.objs & b.objs): return False
    for x, y in ((a, b), (b, a)):
      if self.constval(x, 0) is Ellipsis and all(o.kind in ('inst', 'list', 'dict', 'set', 'slice', 'arr', 'tuple', 'gen', 'func', 'class', 'module', 'scalar') or (o.kind == 'const' and o.info['value'] is not Ellipsis) or (o.kind == 'sym' and o.info['type'] in ('arr', 'int', 'num', 'str', 'slice')) for o in y.objs): return False
      w = self.constval(x, 0)
      if self.exactis and (w is True or w is False) and self.isconst(x) and all(o.kind in ('inst', 'list', 'dict', 'set', 'slice', 'arr', 'tuple', 'gen', 'func', 'class', 'module') or (o.kind == 'const' and o.info['value'] is not w) or (o.kind == 'sym' and o.info['type'] in ('arr', 'str', 'slice')) for o in y.objs): return False
    return None
  def e_IfExp(self, e, st):
    tv = self.ev(e.test, st); t = self.truth(tv, st)
    self.event('branch', e, test=tv, st=st)
    if t is True: return self.ev(e.body, st).withlabs(tv.labs)
    if t is False: return self.ev(e.orelse, st).withlabs(tv.labs)
    q1 = st.copy(); q2 = st.copy()
    lt = self.testlabs(tv, st); ctl = st.ctl
    q1.ctl = q2.ctl = ctl | lt
    r = None
    outs = []
    if self.refine(e.test, q1, True) is not False:
      r = self.ev(e.body, q1); outs.append(q1)
    if self.refine(e.test, q2, False) is not False:
      r2 = self.ev(e.orelse, q2); outs.append(q2)
      r = r2 if r is None else join(r, r2)
    # side effects of both arms, without the narrowing of local names
    for q in outs:
      q.ctl = ctl
      for o, f in list(q.heap.deltas(st.heap)[0].items()):
        if o.kind == 'frame' or f is None: continue
        g = st.heap.get(o)
        if g is None: st.heap[o] = f
        elif g is not f: st.heap[o] = self.mfields(g, f, o)
    return (r if r is not None else AV()).withlabs(lt)
  def e_NamedExpr(self, e, st):
    v = self.ev(e.value, st); self.assign(e.target, v, st, e); return v
  def e_Lambda(self, e, st): return self.av(self.mkfunc(e, st))
  def e_Starred(self, e, st): return self.ev(e.value, st)
  def e_Await(self, e, st): return self.ev(e.value, st)
  def e_Yield(self, e, st):
    v = self.ev(e.value, st) if e.value is not None else self.NONE
    fr = self.cur()
    fr.yields.append(v.withlabs(st.ctl))
    if self.exactgen:
      n = self.constval(st.heap[fr.obj].get(' yielded', self.mk_const(0)), None) if fr.obj in st.heap else None
      st.heap[fr.obj] = dict(st.heap.get(fr.obj, {}), **{' yielded': self.mk_const(n + 1) if n == len(fr.yields) - 1 and self.absdepth == fr.absdepth else self.scalar()})
    self.event('yield', e, value=v, st=st)
    return self.NONE
  def e_YieldFrom(self, e, st):
    v = self.elem(self.ev(e.value, st), st)
    self.cur().yields += [v.withlabs(st.ctl)] * 2
    return self.NONE
  def e_FormattedValue(self, e, st): return self.scalar(self.labs(self.ev(e.value, st), st))

  # comprehensions
  def comp(self, e, st, emit):
    fr = self.cur()
    co = self.obj('frame', ('comp', id(e), fr.ctx))
    st.heap[co] = {}
    # names bound in the comprehension live in the enclosing frame object, restored afterwards
    names = set()
    for g in e.generators:
      for n in ast.walk(g.target):
        if isinstance(n, ast.Name): names.add(n.id)
    saved = {n: self.fields(st, fr.obj).get(n) for n in names}
    ctl = st.ctl
    known = [True]
    ctx0 = fr.ctx
    def run(i, labs):
      if i == len(e.generators): emit(labs, known[0]); return
      g = e.generators[i]
      it = self.ev(g.iter, st)
      self.event('iterate', e, iter=it, expr=g.iter, st=st)
      q = self.loop_iters(it, st)
      if q is not None and len(q) <= 64:
        c0 = fr.ctx
        for j, x in enumerate(q):
          fr.ctx = self.subctx(c0, e, (i, j + 1))
          self.assign(g.target, x.withlabs(it.labs), st, e)
          self.compif(g.ifs, 0, st, lambda lb, sure: run2(i, labs | lb, sure))
        fr.ctx = c0
      else:
        known[0] = False
        self.loopdepth += 1; self.absdepth += 1
        el = self.elem(it, st)
        self.event('loop', e, iter=it, elem=el, st=st)
        self.assign(g.target, AV(el.objs, el.labs | it.labs, ('elem', it.term) if it.term is not None else None), st, e)
        self.compif(g.ifs, 0, st, lambda lb, sure: run2(i, labs | lb | it.labs, sure))
        self.loopdepth -= 1; self.absdepth -= 1
    def run2(i, labs, sure):
      if not sure: known[0] = False
      run(i + 1, labs)
    run(0, E)
    fr.ctx = ctx0
    st.ctl = ctl
    for n, v in saved.items():
      if v is None: self.delf(st, fr.obj, n)
      else: self.setf(st, fr.obj, n, v)
    return known[0]
  def compif(self, ifs, i, st, k):
    labs = set(); sure = True
    for t in ifs:
      tv = self.ev(t, st); tr = self.truth(tv, st)
      if tr is False: return
      if tr is None: sure = False
      labs |= self.labs(tv, st)
      self.refine(t, st, True)
    k(frozenset(labs), sure)
  def e_ListComp(self, e, st, kind='list'):
    out = []
    def emit(labs, known):
      out.append(self.ev(e.elt, st).withlabs(labs))
    known = self.comp(e, st, emit)
    if known: return self.mklist(kind, e, out, st)
    el = joinall(out)
    t = None
    if len(out) == 1 and len(e.generators) == 1 and not e.generators[0].ifs: t = self.mkterm('map', out[0].term)
    r = self.mkopen(kind, e, el, st, term=t) if out else self.mkopen(kind, e, AV(), st)
    return r
  def e_GeneratorExp(self, e, st): return self.e_ListComp(e, st, 'gen')
  def e_SetComp(self, e, st):
    r = self.e_ListComp(e, st, 'set')
    for o in r.objs: self.setf(st, o, 'seq', False)
    return r
  def e_DictComp(self, e, st):
    items = []
    def emit(labs, known): items.append((self.ev(e.key, st), self.ev(e.value, st).withlabs(labs)))
    self.comp(e, st, emit)
    o = self.alloc('dict', e, st)
    f = {}
    for k, v in items:
      c = self.constval(k, _MISSING)
      if c is not _MISSING: f[('k', c)] = join(v, f[('k', c)]) if ('k', c) in f else v
      else: f['open'] = True; f['weak'] = True; f['elem'] = join(v, f.get('elem')); f['kelem'] = join(k, f.get('kelem'))
    if not items: f['open'] = True
    st.heap[o] = f
    return self.av(o)

  # ---------------------------------------------------------------- operators
  DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'), 'Div': ('__truediv__', '__rtruediv__'),
            'Pow': ('__pow__', '__rpow__'), 'Mod': ('__mod__', '__rmod__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'), 'MatMult': ('__matmul__', '__rmatmul__'),
            'BitAnd': ('__and__', '__rand__'), 'BitOr': ('__or__', '__ror__'), 'BitXor': ('__xor__', '__rxor__'), 'LShift': ('__lshift__', '__rlshift__'), 'RShift': ('__rshift__', '__rrshift__')}
  def binop(self, op, a, b, node, st):
    labs = self.labs(a, st) | self.labs(b, st)
    ca, cb = self.constval(a, _MISSING), self.constval(b, _MISSING)
    if op == 'Mod' and any(o.kind == 'const' and isinstance(o.info['value'], str) for o in a.objs): self.event('strformat', node, fmt=a, args=b, st=st)
    if op == 'Add' and a.objs and b.objs and (isinstance(ca, str) or isinstance(cb, str)): self.event('stradd', node, left=a, right=b, st=st)
    if ca is not _MISSING and cb is not _MISSING:
      try:
        import operator as O
        f = {'Add': O.add, 'Sub': O.sub, 'Mult': O.mul, 'Div': O.truediv, 'Mod': O.mod, 'FloorDiv': O.floordiv, 'Pow': O.pow, 'BitOr': O.or_, 'BitAnd': O.and_}[op]
        if op == 'Pow' and not (abs(ca) < 1000 and abs(cb) < 20): raise ValueError
        if op == 'Mult' and isinstance(ca, (str, tuple)) and cb > 1000: raise ValueError
        r = f(ca, cb)
        if isinstance(r, (int, float, str, bool)): return self.mk_const(r).withlabs(labs)
      except Exception: pass
    if op == 'Mod' and isinstance(ca, str) and len(b.objs) == 1 and next(iter(b.objs)).kind == 'tuple':
      q = self.seq(next(iter(b.objs)), st)
      cs = [self.constval(x, _MISSING) for x in q] if q is not None else [_MISSING]
      if not any(isinstance(x, Star) for x in q or ()) and all(isinstance(c, (str, int, float, bool)) for c in cs):
        try: return self.mk_const(ca % tuple(cs)).withlabs(labs)
        except Exception: pass
    out = None
    dn, rn = self.DUNDER[op]
    def isclass(o): return o.kind == 'inst' or (o.kind == 'sym' and self.typeclass(o.info['type']) is not None)
    for o in a.objs:
      r = None
      if isclass(o):
        m = self.getattr(self.av(o, a.labs), dn, st, node, quiet=True)
        r = self.call(m, [b], {}, node, st) if m is not None and m.objs else None
      if r is None:
        bi = [x for x in b.objs if isclass(x)]
        if bi and not isclass(o):
          r = NOTHING
          for x in bi:
            m = self.getattr(self.av(x, b.labs), rn, st, node, quiet=True)
            if m is not None and m.objs: r = join(r, self.call(m, [self.av(o, a.labs, a.term)], {}, node, st))
          if len(bi) < len(b.objs): r = join(r, self.unknown(labs))
        elif o.kind in ('list', 'tuple') and op == 'Add' and all(x.kind in ('list', 'tuple') for x in b.objs):
          qa = self.seq(o, st); qb = [self.seq(x, st) for x in b.objs]
          if qa is not None and len(qb) == 1 and qb[0] is not None: r = self.mklist(o.kind, node, qa + qb[0], st, a.labs | b.labs)
          else: r = self.mkopen(o.kind, node, join(self.elem(self.av(o), st), self.elem(b, st)), st, a.labs | b.labs)
        elif o.kind in ('list', 'tuple') and op == 'Mult':
          qa = self.seq(o, st)
          if qa is not None and isinstance(cb, int) and 0 <= cb * len(qa) < 64: r = self.mklist(o.kind, node, qa * cb, st)
          else: r = self.mkopen(o.kind, node, self.elem(self.av(o), st), st, labs)
        elif op == 'Mult' and o.kind in ('const', 'scalar') and any(x.kind in ('list', 'tuple') for x in b.objs):
          r = self.mkopen('list', node, self.elem(b, st), st, labs)
        elif o.kind in ('list', 'tuple') and op == 'Add':
          r = self.mkopen(o.kind, node, join(self.elem(self.av(o), st), self.elem(b, st)), st, a.labs | b.labs)
        elif o.kind == 'sym' and o.info['type'].startswith(('tuple', 'list')) and op == 'Add':
          r = self.mkopen(o.info['type'].split(':')[0].split('(')[0], node, join(self.elem(self.av(o), st), self.elem(b, st)), st, labs)
        elif o.kind == 'set':
          x, y = self.setval(a, st), self.setval(b, st)
          r = self.mkopen('set', node, join(self.elem(self.av(o), st), self.elem(b, st)), st, labs)
          if x is not None and y is not None and op in ('Sub', 'BitAnd', 'BitOr', 'BitXor'):
            for z in r.objs: self.setf(st, z, 'exact', {'Sub': x - y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op])
        elif o.kind == 'arr' or any(x.kind == 'arr' or (x.kind == 'sym' and x.info['type'] == 'arr') for x in b.objs) or (o.kind == 'sym' and o.info['type'] == 'arr'):
          r = self.mkarr(node, labs, st)
        elif o.kind in ('const', 'scalar') and all(x.kind in ('const', 'scalar', 'tuple', 'dict') or (x.kind == 'sym' and x.info['type'] in ('num', 'int', 'str')) for x in b.objs): r = self.scalar(labs)
        elif o.kind == 'const' and isinstance(o.info['value'], str): r = self.scalar(labs)
        elif o.kind == 'sym' and o.info['type'] in ('num', 'int', 'str'): r = self.scalar(labs)
        else: r = self.unknown(labs)
      out = r if out is None else join(out, r)
    if out is None: out = AV()
    t = out.term
    if t is None or not all(isclass(o) for o in out.objs): t = self.mkterm('b' + op, self.term(a, st), self.term(b, st))
    if self.listeners: self.event('arith', node, op=op, left=a, right=b, out=out, st=st)
    if op == 'Add' and out.objs and all(o.kind in ('list', 'tuple') for o in out.objs): labs = a.labs | b.labs   # the parts carry their own
    return AV(out.objs, out.labs | labs, t)

  # ---------------------------------------------------------------- calls
  def e_Call(self, e, st):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == 'super':
      fr = self.cur()
      if not e.args and fr.func is not None:
        a = fr.node.args.args
        sv = self.fields(st, fr.obj).get(a[0].arg) if a else None
        own = self.owner_class(fr.node, st)
        if sv is not None and own is not None:
          objs = set()
          for o in sv.objs:
            c = o.info['cls'] if o.kind == 'inst' else o if o.kind == 'class' else self.typeclass(o.info['type']) if o.kind == 'sym' else None
            if c is not None: objs.add(self.obj('super', (c, own, o), cls=c, after=own, me=self.av(o, sv.labs)))
          if objs: return AV(frozenset(objs))
        return self.unknown()
      if len(e.args) == 2:
        cv = self.ev(e.args[0], st); sv = self.ev(e.args[1], st)
        objs = set()
        for own in cv.objs:
          for o in sv.objs:
            c = o.info['cls'] if o.kind == 'inst' else o if o.kind == 'class' else self.typeclass(o.info['type']) if o.kind == 'sym' else None
            if c is not None and own.kind == 'class': objs.add(self.obj('super', (c, own, o), cls=c, after=own, me=self.av(o, sv.labs)))
        if objs: return AV(frozenset(objs))
        return self.unknown()
    f = self.ev(e.func, st)
    args = []; starlabs = None
    for a in e.args:
      if isinstance(a, ast.Starred):
        v = self.ev(a.value, st)
        q = self.loop_iters(v, st)
        if q is not None: args += [x.withlabs(v.labs) for x in q]
        else: args.append(Star(self.elem(v, st).withlabs(v.labs)))
      else: args.append(self.ev(a, st))
    kw = {}
    for k in e.keywords:
      if k.arg is not None: kw[k.arg] = self.ev(k.value, st)
      else:
        v = self.ev(k.value, st)
        for o in v.objs:
          if o.kind == 'dict':
            ff = self.fields(st, o)
            for kk, x in ff.items():
              if isinstance(kk, tuple) and isinstance(kk[1], str): kw[kk[1]] = x.withlabs(v.labs) if kk[1] not in kw else join(kw[kk[1]], x)
            if ff.get('elem') is not None or ff.get('open'):
              kw['**'] = join(ff.get('elem') or self.unknown(v.labs), kw.get('**'))
          elif o.kind == 'sym':
            kw['**'] = join(self.sym_elem(o, st), kw.get('**'))
            for kk, x in self.fields(st, o).items():
              if isinstance(kk, tuple) and isinstance(kk[1], str): kw[kk[1]] = x
          else: kw['**'] = join(self.unknown(v.labs), kw.get('**'))
    return self.call(f, args, kw, e, st)
  def owner_class(self, node, st):
    n = getattr(node, '_parent', None)
    while n is not None and not isinstance(n, ast.ClassDef): n = getattr(n, '_parent', None)
    if n is None: return None
    for o in self.intern.values():
      if o.kind == 'class' and o.info.get('node') is n: return o
    return None

  badsig = None; lastbad = ''
  def call(self, f, args, kw, node, st):
    self.fresh = None
    out = None; outs = []
    objs = sorted(f.objs, key=lambda o: o.n)
    if not objs: return AV()
    if len(objs) > 1: objs = self.group_methods(objs)
    self.badsig = None
    if len(objs) == 1:
      try: r = self.call1(objs[0], args, kw, node, st, f)
      except Stop:
        if self.badsig is not None and self.badsig[0] is node: self.event('dead_call', node, why=self.badsig[1], objs=objs)
        self.badsig = None
        raise
      return r.withlabs(f.labs) if objs[0].kind in ('sym', 'unk') else r
    base = st.copy()
    res = None; sts = None
    bad = []
    for o in objs:
      q = base.copy()
      self.badsig = None
      try: r = self.call1(o, args, kw, node, q, f)
      except Stop:
        if self.badsig is not None and self.badsig[0] is node: bad.append(self.badsig[1])
        self.badsig = None
        continue
      res = r if res is None else join(res, r)
      sts = q if sts is None else self.merge(sts, q)
    if res is None:
      if len(bad) == len(objs): self.event('dead_call', node, why=bad[0], objs=objs)
      raise Stop()
    st.become(sts)
    return res
  def group_methods(self, objs):
    """One callee per builtin method name, whatever it is called on."""
    by = {}; rest = []
    for o in objs:
      if o.kind == 'bmeth': by.setdefault(o.info['name'], []).append(o)
      else: rest.append(o)
    for n, os in by.items():
      if len(os) == 1: rest.append(os[0]); continue
      recv = joinall([o.info['recv'] for o in os]).noterm()
      rest.append(self.obj('bmeth', ('grp', n, recv.objs, recv.labs), recv=recv, name=n))
    return rest
  def arglabs(self, args, kw, st):
    r = set()
    for a in list(args) + list(kw.values()):
      if isinstance(a, Star): a = a.av
      r |= self.labs(a, st)
    return frozenset(r)

  def call1(self, o, args, kw, node, st, f):
    k = o.kind
    if not (k in ('func', 'bound', 'class', 'static') or k == 'ext' and o.info['name'] in self.SAFECALLS or k == 'bmeth' and self.isconst(o.info['recv']) and isinstance(self.constval(o.info['recv']), str)): self.keythrow += 1
    self.event('call', node, callee=o, args=args, kw=kw, st=st)
    if k == 'func': return self.call_func(o, args, kw, node, st)
    if k == 'bound':
      fn = o.info['func']
      if fn == 'flags': return self.unknown()
      return self.call_func(fn, [o.info['me']] + list(args), kw, node, st)
    if k == 'class': return self.instantiate(o, args, kw, node, st)
    if k == 'static': return self.call(o.info['f'], args, kw, node, st)
    if k == 'partial':
      k2 = dict(o.info['kw']); k2.update(kw)
      return self.call(o.info['f'], list(o.info['args']) + list(args), k2, node, st)
    if k == 'ext': return models.call_ext(self, o.info['name'], args, kw, node, st)
    if k == 'bmeth': return models.call_method(self, o.info['recv'], o.info['name'], args, kw, node, st)
    if k == 'inst':
      m = self.getattr(self.av(o), '__call__', st, node, quiet=True)
      if m is not None and m.objs: return self.call(m, args, kw, node, st)
      return self.unknown(self.arglabs(args, kw, st))
    if k == 'sym':
      t = o.info['type']
      if self.libcall is not None and o.info['path'].startswith('LIB:'):
        r = self.libcall(self, o, args, kw, node, st)
        if r is not None: return r
      if self.typeclass(t) is not None:
        m = self.getattr(self.av(o), '__call__', st, node, quiet=True)
        if m is not None and m.objs and all(x.kind == 'bound' for x in m.objs): return self.call(m, args, kw, node, st)
      p = o.info['path']
      # a method of a symbolic object of unknown type
      if '.' in p:
        recv, name = p.rsplit('.', 1)
        ro = self.obj('sym', (recv, 'any'), path=recv, type='any')
        return models.call_method(self, self.av(ro, frozenset((recv,))), name, args, kw, node, st)
      labs = self.arglabs(args, kw, st) | {p}
      return self.unknown(labs)
    labs = self.arglabs(args, kw, st) | f.labs
    self.unresolved += 1
    return self.unknown(labs)

  def instantiate(self, c, args, kw, node, st):
    h = self.opaque.get(c.info['qual'])
    if h is not None:
      r = h(self, st, c, args, kw, node)
      if r is not None: return r
    new = self.classattr(c, '__new__', st)
    if new is not None and any(x.kind in ('func', 'static') for x in new.objs):
      r = self.call(AV(frozenset(y for x in new.objs for y in ((x,) if x.kind == 'func' else x.info['f'].objs))), [self.av(c)] + list(args), kw, node, st)
      out = r
      for o in r.objs:
        if o.kind == 'inst' and self.issub(o.info['cls'], c):
          init = self.classattr(o.info['cls'], '__init__', st)
          if init is not None: self.call(self.bindm(init, self.av(o), self.av(c), st, node), args, kw, node, st)
      return out
    ctx = self.stack[-1].ctx if self.stack else 0
    o = self.obj('inst', (id(node), ctx, c), cls=c, node=node)
    st.heap[o] = {}
    init = self.classattr(c, '__init__', st)
    if init is not None:
      self.call(self.bindm(init, self.av(o), self.av(c), st, node), args, kw, node, st)
    labs = E
    self.event('new', node, obj=o, cls=c, st=st)
    return AV(frozenset((o,)), labs)

  def badcall(self, node, o, why):
    self.lastbad = '%s() %s' % (o.info['name'], why)
    self.event('bad_call', node, func=o, why=why)

  def bind_args(self, o, args, kw, node, st):
    """Parameter name -> AV, or None when the call certainly does not fit the signature."""
    fn = o.info['node']; a = fn.args
    f = self.fields(st, o)
    pos = a.posonlyargs + a.args
    out = {}
    kw = dict(kw)
    star = None
    lst = []
    for x in args:
      if isinstance(x, Star): star = x.av if star is None else join(star, x.av)
      else:
        if star is None: lst.append(x)
        else: star = join(star, x)
    openkw = kw.pop('**', None)
    n = len(pos)
    for p, x in zip(pos, lst): out[p.arg] = x
    extra = lst[n:]
    if extra and not a.vararg:
      self.badcall(node, o, 'too many positional arguments (%d given, %d accepted)' % (len(lst), n)); 
      return None
    if star is not None:
      for p in pos[len(lst):]:
        if p.arg not in kw: out[p.arg] = star
    if a.vararg:
      vs = extra
      if star is not None: v = self.mkopen('tuple', fn, joinall(vs + [star]), st, tag=('va', id(node)))
      else: v = self.mklist('tuple', fn, vs, st, tag=('va', id(node)))
      out[a.vararg.arg] = v
    names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
    rest = {}
    for kname, v in kw.items():
      if kname in names and not any(p.arg == kname for p in a.posonlyargs):
        if kname in out and star is None and kname in [p.arg for p in pos[:len(lst)]]:
          self.badcall(node, o, 'multiple values for argument %r' % kname); return None
        out[kname] = v
      elif a.kwarg: rest[kname] = v
      else:
        self.badcall(node, o, 'unexpected keyword argument %r' % kname); return None
    if a.kwarg:
      d = self.alloc('dict', fn, st, tag=('kw', id(node)))
      ff = {('k', n2): v for n2, v in rest.items()}
      if openkw is not None: ff['open'] = True; ff['weak'] = True; ff['elem'] = openkw; ff['kelem'] = self.scalar(openkw.labs)
      st.heap[d] = ff
      out[a.kwarg.arg] = self.av(d)
    defs = f.get('defaults', ())
    for p, d in zip(pos[n - len(defs):], defs):
      if p.arg not in out: out[p.arg] = d if openkw is None else join(d, openkw)
      elif star is not None and p.arg not in kw and p not in pos[:len(lst)]: out[p.arg] = join(out[p.arg], d)
    for p, d in zip(a.kwonlyargs, f.get('kwdefaults', ())):
      if p.arg not in out and d is not None: out[p.arg] = d if openkw is None else join(d, openkw)
    for p in pos + a.kwonlyargs:
      if p.arg not in out:
        if openkw is not None: out[p.arg] = openkw
        elif star is None:
          self.badcall(node, o, 'missing argument %r' % p.arg); return None
        else: out[p.arg] = star
    return out

  def call_func(self, o, args, kw, node, st):
    if o.kind != 'func':
      return self.call1(o, args, kw, node, st, self.av(o))
    fn = o.info['node']
    h = self.opaque.get(o.info['qual'])
    if h is not None:
      r = h(self, st, o, args, kw, node)
      if r is None or not getattr(h, 'quiet', False): self.keythrow += 1
      if r is not None: return r
    depth = sum(1 for f in self.stack if f.node is fn)
    # recursion over something exactly known (a class and its bases, say) is followed further
    if depth >= (2 if not self.exactargs(args, kw) else 8) or len(self.stack) > MAXDEPTH:
      self.keythrow += 1
      self.event('opaque', node, func=o)
      return self.unknown(self.arglabs(args, kw, st))
    b = self.bind_args(o, args, kw, node, st)
    if b is None:
      self.badsig = (node, self.lastbad)
      raise Stop()
    self.narrow_self(o, b, st)
    return self.run_func(o, b, node, st)

  @staticmethod
  def exactargs(args, kw):
    return all(isinstance(a, AV) and len(a.objs) == 1 and next(iter(a.objs)).kind in ('const', 'class') for a in list(args) + list(kw.values()))
  def narrow_self(self, o, b, st):
    """self of a method is an instance of the method's class."""
    fn = o.info['node']
    a = getattr(fn, 'args', None)
    if not isinstance(getattr(fn, '_parent', None), ast.ClassDef) or a is None or not a.args: return
    v = b.get(a.args[0].arg)
    if v is None or not any(x.kind == 'sym' and x.info['type'].rstrip('?') in ('Var', 'Axis') for x in v.objs): return
    k = ('owner', id(fn))
    if k not in self.C: self.C[k] = self.owner_class(fn, st)
    c = self.C[k]
    if c is None: return
    new = set()
    for x in v.objs:
      if x.kind == 'sym' and 'orig' not in x.info:
        d = self.typeclass(x.info['type'].rstrip('?'))
        if d is not None and d is not c and self.issub(c, d): x = self.typed(x, c)
      new.add(x)
    b[a.args[0].arg] = AV(frozenset(new), v.labs, v.term)

  def run_func(self, o, b, node, st):
    fn = o.info['node']
    self.inlined.add(o.info['qual'])
    ctx = self.subctx(self.stack[-1].ctx if self.stack else 0, node, id(fn))
    fo = self.obj('frame', (ctx, id(fn)))
    fr = Frame(fo, o, o.info['mod'], fn, ctx)
    fr.env = o.info['env']
    fr.locals, fr.globals, fr.nonlocals = self.fnlocals(fn)
    fr.globals = set(fr.globals); fr.nonlocals = set(fr.nonlocals)
    fr.params = b; fr.absdepth = self.absdepth
    st.heap[fo] = dict(b)
    saved = self.stack
    self.stack = saved + [fr]
    ctl = st.ctl
    ld = self.loopdepth; ad = self.absdepth
    self.loopdepth = 0
    try:
      self.event('enter', fn, func=o, params=b, st=st, call=node)
      if isinstance(fn, ast.Lambda):
        v = self.ev(fn.body, st).withlabs(st.ctl)
        res = v
      else:
        gen = self.yieldcache.get(id(fn))
        if gen is None: gen = self.yieldcache[id(fn)] = has_yield(fn)
        alive = self.block(fn.body, st)
        if alive: fr.returns.append((self.NONE, st))
        if not fr.returns:
          if gen and fr.yields:
            fr.returns = [(self.NONE, fr.raises[0][0] if fr.raises[0] else st)]
          else:
            # every path raises: let an enclosing handler of the caller see it
            if len(saved) and fr.raises[0]:
              s2 = fr.raises[0][0]
              for q in fr.raises[0][1:]: s2 = self.merge(s2, q)
              q = s2.copy(); q.ctl = ctl
              saved[-1].raises[-1].append(q)
            raise Stop()
        res = None; ms = None
        for v, q in fr.returns:
          res = v if res is None else join(res, v)
          ms = q if ms is None else self.merge(ms, q)
        if fr.raises[0] and len(saved) and len(saved[-1].raises) > 1:
          q = fr.raises[0][0].copy(); q.ctl = ctl
          saved[-1].raises[-1].append(q)
        st.become(ms)
        if gen:
          go = self.alloc('gen', fn, st, tag=('gen', ctx))
          st.heap[go] = {'seq': False, 'elem': joinall(fr.yields)}
          if self.exactgen and len(fr.returns) == 1 and fr.yields and self.constval(st.heap.get(fo, {}).get(' yielded', self.NONE), None) == len(fr.yields): st.heap[go]['seq'] = tuple(fr.yields)
          res = self.av(go)
      self.event('exit', fn, func=o, params=b, st=st, value=res, frame=fr)
    finally:
      self.stack = saved
      self.loopdepth = ld; self.absdepth = ad
      st.ctl = ctl
    if not fr.captured and not getattr(self, 'keepframes', False): st.heap.pop(fo, None)
    return res

class Star:
  __slots__ = ('av',)
  def __init__(self, av): self.av = av

class Stop(Exception):
  """The current path ends (certain exception)."""

class _M: pass
_MISSING = _M()

def _joinl(self, avs): return joinall(avs)
Engine.joinl = _joinl
Engine.isinst = lambda self, o, cls, st: models.isinst(self, o, cls, st)
Engine.flatten_classes = lambda self, v, st: models.flatten_classes(self, v, st)
def _sliceobj(self, node, xs, st):
  o = self.alloc('slice', node, st, tag='slice')
  st.heap[o] = {'seq': tuple(xs)}
  return AV(frozenset((o,)), frozenset().union(*[x.labs for x in xs]), self.mkterm('slice', *[x.term for x in xs]))
Engine.sliceobj = _sliceobj

def _root_frame(self, mod, node):
  o = self.obj('frame', ('root', mod, id(node)))
  fr = Frame(o, None, mod, node, self.subctx(0, node, ('root', self.salt) if self.salt else 'root'))
  fr.env = ()
  return fr
def root_call(self, f, args, kw, st, mod='pygeode', node=None):
  """Call an abstract value from outside the program."""
  node = node or self.prog.modules[mod].tree
  fr = _root_frame(self, mod, node)
  st.heap.setdefault(fr.obj, {})
  saved = self.stack
  self.stack = [fr]
  self.steps = 0; self.loopdepth = self.absdepth = 0
  try: return self.call(f, args, kw, node, st)
  except Stop: return None
  finally: self.stack = saved
Engine.root_call = root_call
