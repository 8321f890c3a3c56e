"""The native routines: what each unpacks from its arguments, and the element type its loops read each array as."""
import re
from . import cast

CT = {'char': 'int8', 'signed char': 'int8', 'unsigned char': 'uint8', 'short': 'int16', 'unsigned short': 'uint16', 'int': 'int32', 'unsigned int': 'uint32',
      'long': 'int64', 'unsigned long': 'uint64', 'long long': 'int64', 'unsigned long long': 'uint64', 'float': 'float32', 'double': 'float64',
      '_Complex float': 'complex64', '_Complex double': 'complex128'}
NPY = {0: 'bool', 1: 'int8', 2: 'uint8', 3: 'int16', 4: 'uint16', 5: 'int32', 6: 'uint32', 7: 'int64', 8: 'uint64', 9: 'int64', 10: 'uint64', 11: 'float32', 12: 'float64', 14: 'complex64', 15: 'complex128'}
NPYNAME = {'NPY_BOOL': 0, 'NPY_BYTE': 1, 'NPY_UBYTE': 2, 'NPY_SHORT': 3, 'NPY_USHORT': 4, 'NPY_INT': 5, 'NPY_UINT': 6, 'NPY_LONG': 7, 'NPY_ULONG': 8, 'NPY_LONGLONG': 9, 'NPY_ULONGLONG': 10,
           'NPY_FLOAT': 11, 'NPY_DOUBLE': 12, 'NPY_CFLOAT': 14, 'NPY_CDOUBLE': 15}
SIZE = {'int8': 1, 'uint8': 1, 'bool': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'float32': 4, 'int64': 8, 'uint64': 8, 'float64': 8, 'complex64': 8, 'complex128': 16}
# what a unit of the format stores through the pointer it is given
UNIT = {'b': {'unsigned char', 'char'}, 'h': {'short'}, 'i': {'int'}, 'I': {'unsigned int'}, 'l': {'long'}, 'k': {'unsigned long'}, 'L': {'long long', 'long'}, 'n': {'long', 'Py_ssize_t', 'long long'},
        'f': {'float'}, 'd': {'double'}, 'p': {'int'}}
SAME = lambda a, b: a == b or (SIZE.get(a) == SIZE.get(b) and {a[:3], b[:3]} <= {'int', 'uin', 'boo'})   # signedness is not layout

def units(fmt):
  """The units of a format string, or None when it has parts this reading does not cover."""
  fmt = re.split(r'[:;]', fmt)[0]
  out = []; opt = False; i = 0
  while i < len(fmt):
    c = fmt[i]
    if c == '|': opt = True; i += 1; continue
    if c in '()$ ': return None
    u = c
    while i + 1 < len(fmt) and fmt[i + 1] in '!#&*': u += fmt[i + 1]; i += 1
    out.append((u, opt)); i += 1
  return out

def takes(u): return 2 if u.endswith(('!', '#', '&')) else 1

class Arg:
  def __init__(self, unit, opt): self.unit = unit; self.opt = opt; self.var = None; self.kind = '?'; self.elem = None; self.slot = None
  @property
  def array(self): return self.kind == 'array'

class Native:
  def __init__(self, module, name, rel, func): self.module = module; self.name = name; self.rel = rel; self.func = func; self.args = None; self.clean = None; self.line = func.line if func is not None else 0
  def __repr__(self): return '%s.%s' % (self.module, self.name)

def pointee(t):
  """Element type of a pointer type, spelled without qualifiers."""
  t = (t or '').strip()
  if not t.endswith('*'): return None
  return ' '.join(w for w in t[:-1].strip().split() if w not in ('const', 'volatile', 'restrict', 'struct'))

class Source:
  def __init__(self, repo, rel):
    self.F = cast.File(repo, rel); self.rel = rel
    self.types = {n.name: n.type for n in self.F.decls if n.kind == 'TypedefDecl'}
    self.module = None; self.natives = {}; self.problems = []; self.reads = 0; self.parsed = 0
    inits = [n.name[7:] for n in self.F.decls if n.kind == 'FunctionDecl' and (n.name or '').startswith('PyInit_')]
    if not inits: return
    sub = rel.rsplit('/', 1)[0].replace('/', '.')
    self.module = sub + '.' + inits[0]
    for n in self.F.decls:
      if n.kind == 'VarDecl' and 'PyMethodDef' in (n.type or ''):
        for row in n.find('InitListExpr'):
          s = [k.strip() for k in row.kids]
          if len(s) < 3 or s[0].kind != 'StringLiteral' or s[1].kind != 'DeclRefExpr': continue
          nm = s[0].value.strip('"'); self.natives[nm] = self.native(nm, s[1].ref)
  def elem(self, t):
    e = pointee(t)
    for _ in range(4):
      if e in ('complex64', 'complex128'): return e
      if e in self.types: e = ' '.join(w for w in (self.types[e] or '').split() if w not in ('const', 'volatile'))
    return CT.get(e)
  def ctype(self, t):
    t = ' '.join(w for w in (t or '').split() if w not in ('const', 'volatile', 'struct'))
    for _ in range(4):
      if t in self.types: t = self.types[t]
    return t
  def native(self, nm, cname):
    f = self.F.funcs.get(cname); nt = Native(self.module, nm, self.rel, f)
    if f is not None:
      ps = self.F.params(f)
      if len(ps) == 2: self.unpack(nt, f, ps[1].id, 0)
    return nt
  def unpack(self, nt, f, argsid, depth):
    calls = []
    for c in self.F.body(f).find('CallExpr'):
      a = cast.args(c)
      if any(x.strip().kind == 'DeclRefExpr' and x.strip().refid == argsid for x in a): calls.append(c)
    ps = [c for c in calls if (cast.callee(c) or '').strip('_').startswith('PyArg_ParseTuple')]
    if len(ps) == 1 and len(calls) == 1: return self.parse(nt, f, ps[0])
    if len(calls) == 1 and depth < 3 and cast.callee(calls[0]) in self.F.funcs:
      g = self.F.funcs[cast.callee(calls[0])]
      for p, x in zip(self.F.params(g), cast.args(calls[0])):
        if x.strip().kind == 'DeclRefExpr' and x.strip().refid == argsid: return self.unpack(nt, g, p.id, depth + 1)
  def parse(self, nt, f, c):
    a = cast.args(c); fm = a[1].strip()
    if fm.kind != 'StringLiteral': return
    us = units(fm.value.strip('"'))
    if us is None: return
    self.parsed += 1
    nt.unpacker = f; nt.clean = 'SizeT' in cast.callee(c)
    rest = a[2:]; need = sum(takes(u) for u, o in us)
    if need != len(rest):
      self.problems.append(('format', nt, f.name, 'its format "%s" needs %d places for what it unpacks, and %d are given' % (fm.value.strip('"'), need, len(rest)), c)); return
    out = []; i = 0
    for u, o in us:
      A = Arg(u, o); slot = rest[i + (1 if u in ('O!', 'O&') else 0)]
      s = slot.strip()
      A.slot = s
      if s.kind == 'UnaryOperator' and s.op == '&' and s.kids[0].strip().kind == 'DeclRefExpr': A.var = s.kids[0].strip()
      if u == 'O!':
        t = rest[i]
        if any(x.kind == 'DeclRefExpr' and x.ref == 'PyArray_API' for x in t.walk()): A.kind = 'array'
        elif any(x.kind == 'DeclRefExpr' and x.ref == 'PyCapsule_Type' for x in t.walk()): A.kind = 'capsule'
        else: A.kind = 'object'
      elif u[0] == 'O': A.kind = 'object'
      elif u[0] in UNIT: A.kind = 'number'
      elif u[0] in 'szyU': A.kind = 'string'
      if A.var is not None:
        t = self.ctype(A.var.type)
        if u in UNIT and not (t in UNIT[u] or (u in 'Lkln' and t.endswith('*'))) and (t in CT or t.endswith('*')):
          self.problems.append(('format', nt, f.name, 'the unit "%s" of its format does not fit %s, a %s' % (u, A.var.ref, t), c))
        if u[0] in 'O' and not t.endswith('*') and t in CT:
          self.problems.append(('format', nt, f.name, 'the unit "%s" of its format does not fit %s, a %s' % (u, A.var.ref, t), c))
      if u[0] in 'szy' and u.endswith('#'):
        L = rest[i + 1].strip()
        if not nt.clean: self.problems.append(('format', nt, f.name, 'it unpacks a string with its length, which needs PY_SSIZE_T_CLEAN', c))
        elif L.kind == 'UnaryOperator' and self.ctype(L.kids[0].type) == 'int':
          self.problems.append(('format', nt, f.name, 'it unpacks the length of a string into an int', c))
      i += takes(u); out.append(A)
    nt.args = out
    self.arrays(nt, f, out)
    for A in out:
      if A.kind == 'capsule' and A.var is not None:
        for c2 in self.F.body(f).find('CallExpr'):
          if cast.callee(c2) == 'PyCapsule_New' and cast.args(c2)[0].strip().refid == A.var.refid:
            self.problems.append(('capsule', nt, f.name, 'it uses the object %s itself, not the pointer it holds' % A.var.ref, c2))
  # array variables: what they hold and what they are read as
  def arrays(self, nt, f, out):
    body = self.F.body(f)
    for A in out:
      if A.kind == 'array' and A.var is not None:
        r = self.read_as(f, A.var.refid, body)
        if len(r) == 1: A.elem = next(iter(r))
  def read_as(self, f, vid, body, depth=0):
    """Element types through which the data of an array variable is read."""
    out = set()
    for n in body.walk():
      base = None
      if n.kind == 'MemberExpr' and n.name == 'data': base = n.kids[0].strip()
      elif n.kind == 'CallExpr' and cast.callee(n) in ('PyArray_DATA', 'PyArray_BYTES'): base = cast.args(n)[0].strip()
      elif n.kind == 'CallExpr' and depth < 2 and cast.callee(n) in self.F.funcs and cast.callee(n) != f.name:
        g = self.F.funcs[cast.callee(n)]
        for p, x in zip(self.F.params(g), cast.args(n)):
          if x.strip().kind == 'DeclRefExpr' and x.strip().refid == vid: out |= self.read_as(g, p.id, self.F.body(g), depth + 1)
        continue
      while base is not None and base.kind == 'MemberExpr' and base.name not in ('data',): base = base.kids[0].strip()
      if base is None or base.kind != 'DeclRefExpr' or base.refid != vid: continue
      # the pointer it becomes: the outermost cast or conversion around it
      t = None; p = n.parent
      while p is not None and p.kind in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
        e = self.elem(p.type)
        if e and (p.kind == 'CStyleCastExpr' or pointee(p.type) not in ('char', 'void')): t = e
        p = p.parent
      if t is None and p is not None:
        if p.kind == 'VarDecl' or (p.kind == 'BinaryOperator' and p.op == '='):
          e = self.elem(p.type); t = e if e and pointee(p.type) not in ('char', 'void') else None
      if t: out.add(t)
    return out
  def made(self):
    """Array variables made with a given element type, and read as another: (function, variable, made as, read as, node)."""
    for name, f in self.F.funcs.items():
      body = self.F.body(f); vars = {}
      for n in body.walk():
        if n.kind == 'VarDecl' and n.kids: tgt, val = n.id, n.kids[-1]; nm = n.name
        elif n.kind == 'BinaryOperator' and n.op == '=' and n.kids[0].strip().kind == 'DeclRefExpr': tgt, val = n.kids[0].strip().refid, n.kids[1]; nm = n.kids[0].strip().ref
        else: continue
        v = val.strip()
        if v.kind != 'CallExpr': continue
        t = self.typenum(v)
        if t is not None: vars.setdefault((tgt, nm), []).append((t, n))
      for (vid, nm), made in vars.items():
        r = self.read_as(f, vid, body)
        for t, n in made:
          self.reads += 1
          for e in r: yield f, nm, t, e, n
  def typenum(self, call):
    """Element type of the array a numpy call makes, when it is written in the call."""
    slot = next((x.value for x in call.kids[0].find('IntegerLiteral')), None)
    if not any(x.kind == 'DeclRefExpr' and x.ref == 'PyArray_API' for x in call.kids[0].walk()): return None
    a = cast.args(call)
    def num(x):
      x = x.strip()
      if x.kind == 'DeclRefExpr' and x.ref in NPYNAME: return NPY[NPYNAME[x.ref]]
      if x.kind == 'IntegerLiteral': return NPY.get(int(x.value))
    if slot == '69' and len(a) == 6:                  # PyArray_FromAny(obj, descr, ...)
      d = a[1].strip()
      if d.kind == 'CallExpr' and next((x.value for x in d.kids[0].find('IntegerLiteral')), None) == '45': return num(cast.args(d)[0])
    if slot == '93' and len(a) > 3: return num(a[3])   # PyArray_New(subtype, nd, dims, type, ...)
    return None

def sources(repo): return [Source(repo, r) for r in cast.files(repo)]
