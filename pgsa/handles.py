"""Paths through functions that open files: what is open, under which name, at every way out.

A function is walked statement by statement with a set of states. A state knows what names stand for (places, constants,
unknown but fixed truth values) and which places are open. Every call may raise. Functions of the package that open or
close something, or are given something that can be, are walked in place of their call."""
import ast
from .load import qualname

SAFE = {'isinstance', 'issubclass', 'len', 'list', 'tuple', 'dict', 'str', 'repr', 'range', 'zip', 'enumerate', 'set', 'frozenset', 'hasattr', 'callable', 'id', 'type', 'bool', 'super', 'print', 'c_int', 'c_long', 'c_char_p', 'c_double', 'byref', 'pointer'}
TRANSPARENT = {'byref', 'pointer', 'POINTER', 'list', 'tuple'}
# callables of other libraries that open something closed with .close() or at the end of a with block
OPENERS = {'gzip.open': 'file', 'bz2.open': 'file', 'lzma.open': 'file', 'io.open': 'file', 'codecs.open': 'file', 'os.fdopen': 'file', 'tarfile.open': 'file', 'zipfile.ZipFile': 'file', 'tempfile.NamedTemporaryFile': 'file', 'tempfile.TemporaryFile': 'file',
           'urllib.request.urlopen': 'socket', 'urllib2.urlopen': 'socket', 'urllib.urlopen': 'socket', 'socket.socket': 'socket', 'matplotlib.backends.backend_pdf.PdfPages': 'file', 'netCDF4.Dataset': 'reader', 'netCDF4.MFDataset': 'reader', 'h5py.File': 'reader', 'numpy.lib.npyio.NpzFile': 'file',
           'shelve.open': 'file', 'sqlite3.connect': 'file', 'subprocess.Popen': None}
RAW = {'nc_open': 'nc_close', 'nc_create': 'nc_close', 'nc__open': 'nc_close', 'nc__create': 'nc_close'}
RAWVAL = {'SDstart': 'SDend'}
CLOSERS = {'nc_close', 'nc_abort', 'SDend'}

class S:
  """One state: environment, status of places, truths, shared places, pending exit."""
  __slots__ = ('env', 'h', 'truth', 'shared', 'stored', 'pend')
  def __init__(s, env, h, truth, shared, stored, pend=None): s.env = env; s.h = h; s.truth = truth; s.shared = shared; s.stored = stored; s.pend = pend
  def copy(s): return S(dict(s.env), dict(s.h), dict(s.truth), s.shared, s.stored, s.pend)
  def key(s): return (tuple(sorted(s.env.items(), key=repr)), tuple(sorted(s.h.items())), tuple(sorted(s.truth.items(), key=repr)), s.shared, s.stored, s.pend)

def dedupe(ss):
  out = {}
  for s in ss: out[s[0].key() + (s[1],) if isinstance(s, tuple) else s.key()] = s
  return list(out.values())

class TooMany(Exception): pass

LIMIT = 400

class Outs:
  def __init__(self): self.raises = []; self.returns = []; self.breaks = []; self.conts = []

class Package:
  def __init__(self, prog):
    self.prog = prog; self.funcs = {}; self.classes = {}; self.imports = {}; self.methods = {}; self.reopen = set()
    for m in prog.modules.values():
      im = self.imports[m.name] = {}
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
          for a in n.names: im[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
          for a in n.names: im[a.asname or a.name] = '%s.%s' % (n.module, a.name)
      for n in m.tree.body:
        self.top(m, n)
    self.close_names()
    self.relevant()
  def top(self, m, n):
    if isinstance(n, ast.FunctionDef): self.funcs.setdefault((m.name, n.name), n)
    elif isinstance(n, ast.ClassDef):
      self.classes[(m.name, n.name)] = n
      for f in n.body:
        if isinstance(f, ast.FunctionDef): self.methods[(m.name, n.name, f.name)] = f
    elif isinstance(n, (ast.If, ast.Try)):
      for x in ast.iter_child_nodes(n):
        if isinstance(x, ast.stmt): self.top(m, x)
  def close_names(self):
    """Classes whose objects are opened and closed by methods of those names."""
    for k, c in self.classes.items():
      if k + ('open',) in self.methods and k + ('close',) in self.methods: self.reopen.add(k)
  def dotted(self, e, m):
    """What a name stands for, as 'package.module.name'."""
    parts = []
    while isinstance(e, ast.Attribute): parts.append(e.attr); e = e.value
    if not isinstance(e, ast.Name): return None
    base = self.imports[m].get(e.id)
    if base is None: return '.'.join([e.id] + parts[::-1])
    return '.'.join([base] + parts[::-1])
  def builtin_open(self, e, m):
    return isinstance(e, ast.Name) and e.id in ('open', 'file') and (m, e.id) not in self.funcs and e.id not in self.imports[m] and not any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets) for x in self.prog.modules[m].tree.body)
  def opener(self, call, m):
    f = call.func
    if self.builtin_open(f, m): return 'file'
    d = self.dotted(f, m)
    return OPENERS.get(d)
  def target(self, call, m, cls):
    """The package's function a call runs, where its name tells."""
    f = call.func
    if isinstance(f, ast.Name):
      if (m, f.id) in self.funcs: return self.funcs[(m, f.id)], None
      d = self.imports[m].get(f.id)
      if d:
        a, _, b = d.rpartition('.')
        if (a, b) in self.funcs: return self.funcs[(a, b)], None
    elif isinstance(f, ast.Attribute):
      if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and cls is not None:
        x = self.methods.get((m, cls.name, f.attr))
        if x is not None: return x, f.value
      d = self.dotted(f, m)
      if d:
        a, _, b = d.rpartition('.')
        if (a, b) in self.funcs: return self.funcs[(a, b)], None
        a, _, c = a.rpartition('.')
        if (a, c, b) in self.methods: return self.methods[(a, c, b)], None
    return None, None
  def klass(self, call, m):
    f = call.func
    if isinstance(f, ast.Name):
      if (m, f.id) in self.classes: return (m, f.id)
      d = self.imports[m].get(f.id)
    else: d = self.dotted(f, m)
    if d:
      a, _, b = d.rpartition('.')
      if (a, b) in self.classes: return (a, b)
  def isact(self, n, m):
    if not isinstance(n, ast.Call): return False
    f = n.func; a = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
    return a in RAW or a in RAWVAL or a in CLOSERS or self.opener(n, m) is not None or (isinstance(f, ast.Attribute) and a in ('open', 'close') and not n.args and not n.keywords)
  def relevant(self):
    fs = list(self.funcs.values()) + list(self.methods.values())
    self.rel = {f for f in fs if any(self.isact(n, f._mod.name) for n in ast.walk(f))}
    calls = {f: [n for n in ast.walk(f) if isinstance(n, ast.Call)] for f in fs}
    owner = {f: self.classes.get(k[:2]) for k, f in self.methods.items()}
    self.owner = owner
    while True:
      new = {f for f in fs if f not in self.rel and any(self.target(n, f._mod.name, owner.get(f))[0] in self.rel for n in calls[f])}
      if not new: break
      self.rel |= new
  def contextmanager(self, f):
    return any((self.dotted(d.func if isinstance(d, ast.Call) else d, f._mod.name) or '').split('.')[-1] == 'contextmanager' for d in f.decorator_list)

class Walk:
  def __init__(self, pk, root):
    self.pk = pk; self.root = root; self.info = {}; self.inlined = set(); self.n = 0; self.depth = 0; self.opened = set(); self.frames = []; self.sites = 0; self.testmemo = {}
  # -- names and places
  def ev(self, e, st):
    """Value of an expression without effects: ('p', place), ('c', constant), ('nz',), ('u', n) or None."""
    if isinstance(e, ast.Constant): return ('c', e.value)
    if isinstance(e, ast.Name):
      k = self.fr + e.id
      if k in st.env: return st.env[k]
      return ('p', k)
    if isinstance(e, ast.Attribute):
      b = self.ev(e.value, st)
      if e.attr == 'value' and b and b[0] == 'p': return b
      if b and b[0] == 'p':
        k = '%s.%s' % (b[1], e.attr)
        return st.env.get(k, ('p', k))
      return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in TRANSPARENT and e.args: return self.ev(e.args[0], st)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in TRANSPARENT and e.args: return self.ev(e.args[0], st)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)): return ('c', -e.operand.value)
    return None
  def places(self, e, st):
    """Places of things that are or were open mentioned in an expression."""
    out = set()
    for n in ast.walk(e):
      if isinstance(n, (ast.Name, ast.Attribute)):
        v = self.ev(n, st)
        if v and v[0] == 'p' and v[1] in st.h: out.add(v[1])
    return out
  # -- expressions
  def calls(self, e):
    """Calls in the order they are made (inner first)."""
    out = []
    def w(n):
      if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)): return
      for c in ast.iter_child_nodes(n): w(c)
      if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom)): out.append(n)
    w(e); return out
  def expr(self, e, sts, o):
    """States after evaluating an expression, each with the value of its outermost call."""
    cs = self.calls(e)
    res = [(s, {}) for s in sts]
    for c in cs:
      new = []
      for s, vals in res:
        for s2, v in self.docall(c, s, o, vals):
          d = dict(vals); d[c] = v; new.append((s2, d))
      if len(new) > LIMIT: raise TooMany()
      res = new
    out = []
    for s, vals in res:
      out.append((s, self.value(e, s, vals)))
    return out
  def value(self, e, s, vals):
    if e in vals and vals[e] is not None: return vals[e]
    if isinstance(e, (ast.Call, ast.Yield)):
      v = self.ev(e, s)
      return v if v is not None else ('u', '%s%d:%d' % (self.fr, e.lineno, e.col_offset))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      t = self.truth(self.value(e.operand, s, vals), s)
      if t is not None: return ('c', not t)
      v = self.value(e.operand, s, vals)
      return ('not', v) if v and v[0] in ('u',) else None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
      a = self.value(e.left, s, vals); b = self.value(e.comparators[0], s, vals)
      r = self.compare(a, e.ops[0], b, s)
      if r is not None: return ('c', r)
      return ('u', '%s%s' % (self.fr, ast.dump(e)))
    if isinstance(e, ast.BoolOp):
      ts = [self.truth(self.value(x, s, vals), s) for x in e.values]
      if isinstance(e.op, ast.And): return ('c', False) if False in ts else ('c', True) if all(ts) and None not in ts else None
      return ('c', True) if True in ts else ('c', False) if None not in ts else None
    if isinstance(e, ast.NamedExpr): return self.value(e.value, s, vals)
    if isinstance(e, ast.IfExp): return None
    v = self.ev(e, s)
    return v
  def compare(self, a, op, b, s):
    if a is None or b is None: return None
    if a[0] == 'c' and b[0] == 'c':
      try:
        if isinstance(op, (ast.Eq, ast.Is)): return a[1] == b[1]
        if isinstance(op, (ast.NotEq, ast.IsNot)): return a[1] != b[1]
        if isinstance(op, ast.Lt): return a[1] < b[1]
        if isinstance(op, ast.LtE): return a[1] <= b[1]
        if isinstance(op, ast.Gt): return a[1] > b[1]
        if isinstance(op, ast.GtE): return a[1] >= b[1]
      except TypeError: return None
    if a[0] == 'nz' and b == ('c', 0): return False if isinstance(op, ast.Eq) else True if isinstance(op, ast.NotEq) else None
    if b[0] == 'nz' and a == ('c', 0): return self.compare(b, op, a, s)
    # a place compared with None or a mark for "not open"
    if b == ('c', None) and a[0] == 'p' and a[1] in s.h and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and a[1].find('@') >= 0: return isinstance(op, (ast.IsNot, ast.NotEq))
    return None
  def truth(self, v, s):
    if v is None: return None
    if v[0] == 'c': return bool(v[1])
    if v[0] == 'nz': return True
    if v[0] == 'not':
      t = self.truth(v[1], s)
      return None if t is None else not t
    if v[0] == 'u': return s.truth.get(v[1])
    if v[0] == 'p' and '@' in v[1]: return True
    return None
  def split(self, e, sts, o):
    """States in which a test holds, and in which it does not."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      a, b = self.split(e.operand, sts, o); return b, a
    if isinstance(e, ast.BoolOp):
      yes, no = [], []; cur = sts
      for i, x in enumerate(e.values):
        a, b = self.split(x, cur, o)
        if isinstance(e.op, ast.And): no += b; cur = a
        else: yes += a; cur = b
      return (cur, no) if isinstance(e.op, ast.And) else (yes, cur)
    yes, no = [], []
    for s, v in self.expr(e, sts, o):
      t = self.truth(v, s)
      if t is not False:
        y = s
        if t is None and v and v[0] in ('u', 'not') and self.worth(v):
          y = s.copy(); y.truth[v[1] if v[0] == 'u' else v[1][1]] = v[0] == 'u'
        yes.append(y)
      if t is not True:
        n = s
        if t is None and v and v[0] in ('u', 'not') and self.worth(v):
          n = s.copy(); n.truth[v[1] if v[0] == 'u' else v[1][1]] = v[0] != 'u'
        no.append(n)
    return yes, no
  def tests(self):
    """Names tested in a function, and names and comparisons tested more than once."""
    if self.fn not in self.testmemo:
      names, dumps = {}, {}
      for n in ast.walk(self.fn):
        t = n.test if isinstance(n, (ast.If, ast.While, ast.Assert, ast.IfExp)) else None
        if t is None: continue
        for x in ast.walk(t):
          if isinstance(x, ast.Name): names[x.id] = names.get(x.id, 0) + 1
          elif isinstance(x, ast.Compare): d = ast.dump(x); dumps[d] = dumps.get(d, 0) + 1
      self.testmemo[self.fn] = set(names), {n for n, k in names.items() if k > 1}, {d for d, k in dumps.items() if k > 1}
    return self.testmemo[self.fn]
  def worth(self, v):
    """Whether the truth of something unknown is asked for again."""
    k = v[1][1] if v[0] == 'not' else v[1]
    k = k[len(self.fr):] if k.startswith(self.fr) else k
    return not k.startswith('Compare') or k in self.tests()[2]
  # -- calls
  def open_place(self, st, place, kind, node):
    self.info.setdefault(place, (kind, node, self.fn)); self.sites += 1
    st.h[place] = 'open'; self.opened.add((kind, node))
  def docall(self, c, st, o, vals):
    """[(state, value)] after one call; what it may raise goes to o."""
    if isinstance(c, (ast.Yield, ast.YieldFrom)): return self.doyield(c, st, o)
    f = c.func; m = self.fn._mod.name
    name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
    args = list(c.args) + [k.value for k in c.keywords]
    def val(e): return vals[e] if e in vals and vals[e] is not None else self.ev(e, st)
    # closing
    if name == 'close' and isinstance(f, ast.Attribute) or name in CLOSERS:
      v = val(f.value) if name == 'close' else val(args[0]) if args else None
      if v and v[0] == 'p':
        s = st.copy(); s.h[v[1]] = 'closed'
        if name in CLOSERS: return [(s, ('c', 0)), (s, ('nz',))]
        o.raises.append(s)
        return [(s, None)]
      return [(st, None)]
    # raw openers
    if name in RAW and args:
      v = val(args[-1])
      if v and v[0] == 'p':
        s = st.copy(); self.open_place(s, v[1], 'raw', c)
        return [(s, ('c', 0)), (st, ('nz',))]
      return [(st, None)]
    # opened and closed on demand
    if isinstance(f, ast.Attribute) and name in ('open', 'opened') and not args and self.pk.reopen:
      v = val(f.value)
      if v and v[0] == 'p' and not (isinstance(f.value, ast.Name) and f.value.id in self.pk.imports[m] and v[1] == self.fr + f.value.id):
        p = v[1]; cur = st.h.get(p)
        if name == 'open':
          o.raises.append(st)
          if cur in ('ext', 'open'): return [(st, None)]
          a = st.copy(); self.open_place(a, p, 'reopen', c)
          if cur is None and '@' not in p:
            b = st.copy(); b.h[p] = 'ext'; return [(a, None), (b, None)]
          return [(a, None)]
        if cur in ('ext', 'open'): return [(st, ('c', True))]
        if cur in ('closed', 'no') or '@' in p: return [(st, ('c', False))]
        a = st.copy(); a.h[p] = 'ext'; b = st.copy(); b.h[p] = 'no'
        return [(a, ('c', True)), (b, ('c', False))]
    # openers of other libraries
    kind = self.pk.opener(c, m)
    if kind is not None:
      o.raises.append(st)
      p = '@%s%d:%d' % (self.fr, c.lineno, c.col_offset)
      s = st.copy(); self.open_place(s, p, kind, c)
      return [(s, ('p', p))]
    k = self.pk.klass(c, m)
    if k in self.pk.reopen:
      o.raises.append(st)
      return [(st, ('p', '@%s%d:%d' % (self.fr, c.lineno, c.col_offset)))]
    t, me = self.pk.target(c, m, self.cls)
    if t is not None and t in self.pk.rel and self.depth < 4 and t not in self.frames and not self.pk.contextmanager(t) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(t)):
      r = self.inline(t, me, c, st, o, vals)
      if r is not None: return r
    if name in SAFE: return [(st, None)]
    o.raises.append(st)
    given = set()
    for a in args:
      v = val(a)
      if v and v[0] == 'p' and v[1] in st.h: given.add(v[1])
      elif not isinstance(a, ast.Call): given |= self.places(a, st)
    if given:
      s = st.copy(); s.shared = s.shared | frozenset(given)
      if k is not None: s.stored = s.stored | frozenset(given)
      return [(s, None)]
    return [(st, None)]
  def enter(self, t, me, c, st, vals):
    """Environment of a function walked in place of its call, or None when its arguments are given in ways not followed."""
    a = t.args
    if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords): return None
    names = [x.arg for x in a.posonlyargs + a.args]
    def val(e): return vals[e] if e in vals and vals[e] is not None else self.ev(e, st)
    given = ([me] if me is not None else []) + list(c.args)
    if len(given) > len(names): return None
    self.n += 1; fr = 'f%d:' % self.n
    env = {}
    for n, e in zip(names, given):
      v = val(e); env[fr + n] = v if v is not None else ('u', fr + n)
    for kw in c.keywords:
      v = val(kw.value); env[fr + kw.arg] = v if v is not None else ('u', fr + kw.arg)
    for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
      if fr + n not in env: env[fr + n] = ('c', d.value) if isinstance(d, ast.Constant) else ('u', fr + n)
    return fr, env
  def inline(self, t, me, c, st, o, vals):
    e = self.enter(t, me, c, st, vals)
    if e is None: return None
    fr, env = e
    keep = (getattr(self, 'fr', ''), self.fn, self.cls)
    self.inlined.add(t); self.frames.append(t); self.depth += 1
    self.fr, self.fn, self.cls = fr, t, self.pk.owner.get(t) if self.pk.owner.get(t) is not None else None
    s = st.copy(); s.env.update(env)
    oo = Outs()
    try: ends = self.block(t.body, [s], oo)
    finally:
      self.fr, self.fn, self.cls = keep; self.frames.pop(); self.depth -= 1
    def leave(s):
      s = s.copy()
      for k in [k for k in s.env if k.startswith(fr)]: del s.env[k]
      return s
    o.raises += [leave(s) for s in oo.raises]
    out = [(leave(s), ('c', None)) for s in ends]
    for s, v in oo.returns: out.append((leave(s), v))
    return out
  def doyield(self, c, st, o):
    if self.yields and self.yields[-1] is not None and self.yields[-1][0] is self.fn:
      fn, item, body, caller = self.yields[-1]
      fr, f, cl = self.fr, self.fn, self.cls
      self.fr, self.fn, self.cls = caller; self.yields.append(None)
      s = st.copy()
      if item is not None and c.value is not None:
        fr2 = self.fr; self.fr = fr; v = self.ev(c.value, s); self.fr = fr2
        self.bind(item, v, s)
      oo = Outs()
      try: ends = self.block(body, [s], oo)
      finally: self.fr, self.fn, self.cls = fr, f, cl; self.yields.pop()
      o.raises += oo.raises
      out = [(x, None) for x in ends]
      for kind, xs in (('return', oo.returns), ('break', oo.breaks), ('cont', oo.conts)):
        for x in xs:
          v = None
          if kind == 'return': x, v = x
          x = x.copy(); x.pend = (kind, v); out.append((x, None))
      return out
    if self.pk.contextmanager(self.fn): o.raises.append(st)
    s = st.copy(); s.shared = s.shared | frozenset(self.places(c, st)); s.stored = s.stored | frozenset(self.places(c, st))
    return [(s, None)]
  # -- statements
  def bind(self, t, v, st):
    if isinstance(t, ast.Name):
      k = self.fr + t.id
      if (v is None or v[0] != 'p') and t.id not in self.tests()[0]: st.env.pop(k, None); return
      if v is not None and v[0] in ('c', 'nz', 'p'): st.env[k] = v; return
      # something unknown: one mark for each name, with nothing known about it yet
      st.truth.pop('=' + k, None); st.env[k] = ('u', '=' + k)
    elif isinstance(t, ast.Attribute):
      b = self.ev(t.value, st)
      if b and b[0] == 'p':
        k = '%s.%s' % (b[1], t.attr)
        if v and v[0] == 'p' and v[1] in st.h: st.stored = st.stored | {v[1]}
        if v and v[0] == 'p': st.env[k] = v
        else: st.env.pop(k, None)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts: self.bind(x.value if isinstance(x, ast.Starred) else x, None, st)
    elif isinstance(t, ast.Subscript) and v and v[0] == 'p' and v[1] in st.h: st.stored = st.stored | {v[1]}
  def block(self, ss, sts, o):
    for s in ss:
      if not sts: break
      sts = dedupe(self.stmt(s, sts, o))
      o.raises = dedupe(o.raises)
      if len(sts) > LIMIT or len(o.raises) > 4 * LIMIT: raise TooMany()
    return sts
  def forget(self, s, sts):
    """Truths about names a statement binds no longer hold."""
    names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    if not names: return sts
    out = []
    for st in sts:
      bad = [k for k in st.truth if any("id='%s'" % n in str(k) for n in names)]
      if bad:
        st = st.copy()
        for k in bad: del st.truth[k]
      out.append(st)
    return out
  def stmt(self, s, sts, o):
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)): return sts
    if isinstance(s, ast.Expr): return [x for x, v in self.expr(s.value, sts, o)]
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
      if s.value is None: return sts
      ts = s.targets if isinstance(s, ast.Assign) else [s.target]
      out = []
      for st, v in self.expr(s.value, self.forget(s, sts), o):
        for t in ts:
          for c in self.calls(t): o.raises.append(st)
        st = st.copy()
        if v is None or v[0] in ('u', 'not'):
          inside = self.places(s.value, st)
          # put in a container: it is held by whatever holds that
          if inside and not isinstance(s.value, (ast.Call, ast.Compare)): st.shared = st.shared | frozenset(inside)
        if isinstance(s.value, ast.Name) or not (v and v[0] == 'p' and isinstance(s.value, ast.Attribute) and False):
          for t in ts: self.bind(t, v, st)
        out.append(st)
      return out
    if isinstance(s, ast.AugAssign):
      out = []
      for st, v in self.expr(s.value, self.forget(s, sts), o):
        st = st.copy(); self.bind(s.target, None, st); out.append(st)
      return out
    if isinstance(s, ast.Return):
      if s.value is None: o.returns += [(x, ('c', None)) for x in sts]; return []
      for x, v in self.expr(s.value, sts, o):
        ps = self.places(s.value, x)
        if v and v[0] == 'p': ps = ps | {v[1]}
        if ps and not isinstance(s.value, ast.Compare): x = x.copy(); x.shared = x.shared | frozenset(ps); x.stored = x.stored | (frozenset(ps) if not isinstance(s.value, ast.Call) or v and v[0] == 'p' else frozenset())
        o.returns.append((x, v))
      return []
    if isinstance(s, ast.Raise):
      for e in (s.exc, s.cause):
        if e is not None: sts = [x for x, v in self.expr(e, sts, Outs())]
      o.raises += sts; return []
    if isinstance(s, ast.Assert):
      yes, no = self.split(s.test, sts, o)
      o.raises += no; return yes
    if isinstance(s, ast.If):
      yes, no = self.split(s.test, sts, o)
      return self.block(s.body, dedupe(yes), o) + self.block(s.orelse, dedupe(no), o)
    if isinstance(s, (ast.For, ast.While)):
      if isinstance(s, ast.For): cur = [x for x, v in self.expr(s.iter, sts, o)]
      else: cur = sts
      oo = Outs(); done = []; seen = {}
      work = cur
      for i in range(4):
        work = [x for x in work if x.key() not in seen]
        for x in work: seen[x.key()] = x
        if not work: break
        if isinstance(s, ast.While): yes, no = self.split(s.test, work, o)
        else: yes, no = work, work
        done += no
        if isinstance(s, ast.For):
          ys = []
          for x in self.forget(s, yes):
            x = x.copy(); self.bind(s.target, None, x); ys.append(x)
          yes = ys
        end = self.block(s.body, dedupe(yes), oo)
        work = dedupe(end + oo.conts); oo.conts = []
      o.raises += oo.raises; o.returns += oo.returns
      return self.block(s.orelse, dedupe(done), o) + oo.breaks
    if isinstance(s, ast.Break): o.breaks += sts; return []
    if isinstance(s, ast.Continue): o.conts += sts; return []
    if isinstance(s, (ast.With, ast.AsyncWith)): return self.withs(s.items, s.body, sts, o)
    if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar': return self.trying(s, sts, o)
    if isinstance(s, ast.Delete): return sts
    if type(s).__name__ == 'Match':
      cur = [x for x, v in self.expr(s.subject, sts, o)]; out = list(cur)
      for c in s.cases: out += self.block(c.body, cur, o)
      return out
    return sts
  def withs(self, items, body, sts, o):
    if not items: return self.block(body, sts, o)
    it, rest = items[0], items[1:]
    c = it.context_expr
    if isinstance(c, ast.Call):
      t, me = self.pk.target(c, self.fn._mod.name, self.cls)
      if t is not None and self.pk.contextmanager(t) and t not in self.frames and self.depth < 4: return self.generator(t, me, c, it, rest, body, sts, o)
    if isinstance(c, ast.Call) and (self.pk.dotted(c.func, self.fn._mod.name) or '').endswith('closing') and c.args: c = c.args[0]
    out = []
    for st, v in self.expr(c, sts, o):
      p = v[1] if v and v[0] == 'p' else None
      st = st.copy()
      if it.optional_vars is not None: self.bind(it.optional_vars, v, st)
      if p is not None and '@' in p and p not in st.h: self.info.setdefault(p, ('reopen', c, self.fn))
      oo = Outs()
      ends = self.withs(rest, body, [st], oo)
      def close(x):
        if p is None: return x
        x = x.copy(); x.h[p] = 'closed'; return x
      o.raises += [close(x) for x in oo.raises]; o.returns += [(close(x), y) for x, y in oo.returns]
      o.breaks += [close(x) for x in oo.breaks]; o.conts += [close(x) for x in oo.conts]
      out += [close(x) for x in ends]
    return out
  def generator(self, t, me, c, it, rest, body, sts, o):
    """with helper(...): the helper's body, with the block run where it yields."""
    pre = sts; out = []
    self.inlined.add(t)
    for x in list(c.args) + [k.value for k in c.keywords]: pre = [s for s, v in self.expr(x, pre, o)]
    for st in pre:
      e = self.enter(t, me, c, st, {})
      if e is None: o.raises.append(st); out += self.withs(rest, body, [st], o); continue
      fr, env = e
      inner = body if not rest else [ast.copy_location(ast.With(items=rest, body=body), body[0])]
      keep = (self.fr, self.fn, self.cls)
      self.yields.append((t, it.optional_vars, inner, keep)); self.frames.append(t); self.depth += 1
      self.fr, self.fn, self.cls = fr, t, self.pk.owner.get(t)
      s = st.copy(); s.env.update(env); oo = Outs()
      try: ends = self.block(t.body, [s], oo)
      finally: self.fr, self.fn, self.cls = keep; self.yields.pop(); self.frames.pop(); self.depth -= 1
      o.raises += oo.raises
      for x in ends + [x for x, v in oo.returns]:
        if x.pend is None: out.append(x)
        else:
          k, v = x.pend; x = x.copy(); x.pend = None
          if k == 'return': o.returns.append((x, v))
          elif k == 'break': o.breaks.append(x)
          else: o.conts.append(x)
    return out
  def trying(self, s, sts, o):
    oo = Outs()
    ends = self.block(s.body, sts, oo)
    caught = dedupe(oo.raises); oo.raises = []
    if s.orelse: ends = self.block(s.orelse, ends, oo)
    left = list(caught); broad = False
    for h in s.handlers:
      names = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))} if h.type is not None else {'BaseException'}
      ends = ends + self.block(h.body, caught, oo)
      if names & {'BaseException', 'Exception'}: broad = True; break
    if broad: left = []
    oo.raises = dedupe(oo.raises + left)
    if not s.finalbody:
      o.raises += oo.raises; o.returns += oo.returns; o.breaks += oo.breaks; o.conts += oo.conts
      return ends
    out = self.block(s.finalbody, dedupe(ends), o)
    for x in self.block(s.finalbody, oo.raises, o): o.raises.append(x)
    byv = {}
    for x, v in oo.returns: byv.setdefault(v, []).append(x)
    for v, xs in byv.items(): o.returns += [(x, v) for x in self.block(s.finalbody, dedupe(xs), o)]
    o.breaks += self.block(s.finalbody, oo.breaks, o); o.conts += self.block(s.finalbody, oo.conts, o)
    return out
  # -- a whole function
  def run(self):
    f = self.root
    self.fr = ''; self.fn = f; self.cls = self.pk.owner.get(f); self.yields = []; self.frames = [f]
    o = Outs()
    ends = self.block(f.body, [S({}, {}, {}, frozenset(), frozenset())], o)
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
    self.left = []        # (place, how)
    me = f.args.args[0].arg if self.cls is not None and f.args.args else None
    for how, ss in (('raises', o.raises), ('returns', ends + [x for x, v in o.returns])):
      for x in ss:
        for p, status in x.h.items():
          if status != 'open': continue
          kind = self.info[p][0]
          root = p.split('.')[0]
          local = '@' in p or (root not in params and '.' not in p)
          own = root == me and '.' in p
          if kind == 'reopen' and not (local or own): continue
          if kind != 'reopen' and not local: continue
          if kind != 'reopen' and p in x.stored and (how == 'returns' or any(k.split('.')[0] in params and v == ('p', p) for k, v in x.env.items())): continue
          if kind == 'reader' and how == 'returns' and p in x.shared: continue
          self.left.append((p, how))
    return self
