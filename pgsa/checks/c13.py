"""C13: files, handles and sockets an operation opens for itself are closed on every way out.

Every function of the package that opens something is walked along all its paths, any call of it raising (pgsa/handles.py);
native code that opens files is walked likewise."""
import ast
from .. import cast, handles, runner as R
from ..engine import where
from ..load import qualname
from ..report import Broken

def fq(f): return '%s.%s' % (f._mod.name, qualname(f))
WHAT = {'file': 'a file', 'socket': 'a connection', 'reader': 'a file', 'raw': 'a file of the netCDF library', 'reopen': 'its file'}

def name(c): return getattr(c.func, 'attr', None) or getattr(c.func, 'id', '')

def run(rep):
  eng = R.engine()
  prog = eng.prog
  pk = handles.Package(prog)
  fs = list(pk.funcs.values()) + list(pk.methods.values())
  walked = 0; sites = set(); und = {}; walks = []; inl = set()
  for f in fs:
    if f not in pk.rel: continue
    try: w = handles.Walk(pk, f).run()
    except handles.TooMany: und[fq(f)] = 1; continue
    walked += 1; walks.append(w); inl |= w.inlined; sites |= {(k, n) for k, n in w.opened}
  for w in walks:
    if w.root in inl: continue       # walked where it is called
    for p, how in w.left:
      kind, node, fn = w.info[p]
      rep.add('left open', '%s|%s|%s' % (fq(fn), kind, 'exception' if how == 'raises' else 'return'),
              '%s opens %s that is still open when %s %s' % (fq(fn), WHAT[kind], fq(w.root), 'raises an exception' if how == 'raises' else 'returns'), where(node))
  # an object that keeps a handle has a way to close it
  keep = 0
  for (m, c), cls in pk.classes.items():
    ms = [f for f in cls.body if isinstance(f, ast.FunctionDef)]
    def selfattr(e):
      for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self': return n.attr
    for f in ms:
      for n in ast.walk(f):
        if not isinstance(n, ast.Call): continue
        a = name(n)
        at = None
        if a in handles.RAW and n.args: at = selfattr(n.args[-1])
        elif a in handles.RAWVAL and isinstance(n._parent, ast.Assign): at = selfattr(n._parent.targets[0])
        if at is None: continue
        keep += 1; sites.add(('kept', n))
        # methods from which the handle is given to a closing routine
        closing = set()
        while True:
          new = {g.name for g in ms if g.name not in closing and any((getattr(x, 'attr', getattr(x, 'id', '')) in handles.CLOSERS or isinstance(x, ast.Call) and
                 isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and x.func.attr in closing) for x in ast.walk(g))}
          if not new: break
          closing |= new
        helpers = {g.name for k2, g in pk.funcs.items() if k2[0] == m and any(isinstance(x, ast.Call) and name(x) in handles.CLOSERS for x in ast.walk(g))}
        # a function of the module may do it for a method
        helped = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in helpers and any(isinstance(y, ast.Name) and y.id == 'self' for z in x.args for y in ast.walk(z)) for g in ms for x in ast.walk(g))
        if not closing and not helped: rep.add('never closed', '%s.%s|%s' % (m, c, at), '%s.%s keeps a file open in %s and no method closes it' % (m, c, at), where(n))
    for f in ms:
      if f.name == '__exit__':
        keep += 1; a = f.args
        n = len(a.posonlyargs + a.args); need = n - len(a.defaults)
        if not (need <= 4 and (n >= 4 or a.vararg)): rep.add('exit shape', '%s.%s' % (m, c), '%s.%s.__exit__ cannot be called at the end of a with block, which then fails with its file open' % (m, c), where(f))
  nat = native(rep, prog.repo, und)
  rep.floor('places_opening', len(sites) + nat, 5)
  rep.floor('functions_walked', walked, 5)
  rep.obligations = len(sites) + nat + keep
  rep.coverage['classes_keeping_handles'] = keep
  rep.coverage['undecided'] = sorted(und)[:40]
  rep.assumptions = ['any call may raise, apart from type tests, sizes and the like', 'a reader handed to the objects made from it belongs to the result']
  rep.explanation = 'Every function that opens a file, handle or connection was walked along all paths with every call able to raise; what was opened was closed, or belonged to what is returned, on each.'

class Unclear(Exception): pass
OPENC = {'fopen', 'fdopen', 'popen', 'tmpfile', 'freopen'}
CLOSEC = {'fclose', 'pclose'}
class Native:
  """States of the file variables of one C function at each way out."""
  def __init__(self, F, f, closers):
    self.F = F; self.closers = closers; self.bad = []; self.vars = {}; self.lines = {}
    for n in F.body(f).find('VarDecl'):
      if n.type and ('FILE' in n.type) and n.type.count('*') == 1: self.vars[n.id] = n.name
    for n in F.body(f).find('GotoStmt', 'LabelStmt', 'IndirectGotoStmt'): raise Unclear('goto')
    self.brk = []; self.cnt = []
    out = self.stmt(F.body(f), {frozenset()})
    self.leave(out, None)
  def leave(self, sts, ret):
    gone = {x.refid for x in ret.find('DeclRefExpr')} if ret is not None else set()
    for s in sts:
      for v, how in s:
        if how == 'open' and v not in gone: self.bad.append(v)
  def set(self, s, v, how): return frozenset([x for x in s if x[0] != v] + ([(v, how)] if how else []))
  def isopen(self, e):
    e = e.strip()
    if e.kind == 'CallExpr' and cast.callee(e) in OPENC: return e
    if e.kind == 'BinaryOperator' and e.op == '=': return self.isopen(e.kids[1])
  def var(self, e):
    e = e.strip()
    if e.kind == 'BinaryOperator' and e.op == '=': return self.var(e.kids[0])
    return e.refid if e.kind == 'DeclRefExpr' and e.refid in self.vars else None
  def expr(self, e, sts):
    """States after an expression's effects, inner ones first."""
    if e.kind in ('BinaryOperator', 'ConditionalOperator') and e.op in ('&&', '||') or e.kind == 'ConditionalOperator':
      a = self.expr(e.kids[0], sts)
      return a | set().union(*[self.expr(k, a) for k in e.kids[1:]])
    if e.kind == 'StmtExpr': return sts
    for k in e.kids: sts = self.expr(k, sts)
    if e.kind == 'BinaryOperator' and e.op == '=':
      v = self.var(e.kids[0]); r = e.kids[1].strip()
      if v is not None:
        if self.isopen(r): self.lines[v] = e.line; return {self.set(s, v, 'open') for s in sts} | {self.set(s, v, 'null') for s in sts}
        return {self.set(s, v, None) for s in sts}
      w = self.var(r)
      if w is not None: return {self.set(s, w, None) for s in sts}       # kept somewhere else
    elif e.kind == 'CallExpr':
      n = cast.callee(e)
      for i, a in enumerate(cast.args(e)):
        v = self.var(a)
        if v is None:
          x = a.strip()
          if x.kind == 'UnaryOperator' and x.op == '&' and self.var(x.kids[0]) is not None: sts = {self.set(s, self.var(x.kids[0]), None) for s in sts}
          continue
        if n in CLOSEC or (n, i) in self.closers: sts = {self.set(s, v, 'closed') for s in sts}
        elif n and n.startswith('Py'): sts = {self.set(s, v, None) for s in sts}
    return sts
  def split(self, e, sts):
    sts = sts; x = e.strip()
    if x.kind == 'UnaryOperator' and x.op == '!':
      a, b = self.split(x.kids[0], sts); return b, a
    if x.kind == 'BinaryOperator' and x.op in ('&&', '||'):
      a, b = self.split(x.kids[0], sts)
      if x.op == '&&': c, d = self.split(x.kids[1], a); return c, b | d
      c, d = self.split(x.kids[1], b); return a | c, d
    out = self.expr(e, sts)
    v = self.var(x); flip = False
    if x.kind == 'BinaryOperator' and x.op in ('==', '!='):
      for i in (0, 1):
        z = x.kids[1 - i].strip()
        if self.var(x.kids[i]) is not None and (z.kind in ('GNUNullExpr',) or z.kind == 'IntegerLiteral' and z.value == '0'): v = self.var(x.kids[i]); flip = x.op == '=='
    if v is None: return out, out
    yes = {s for s in out if (v, 'null') not in s}; no = {s for s in out if not any(w == v and h in ('open', 'closed') for w, h in s)}
    return (no, yes) if flip else (yes, no)
  def stmt(self, n, sts):
    if not sts: return sts
    k = n.kind
    if k == 'CompoundStmt':
      for x in n.kids: sts = self.stmt(x, sts)
      return sts
    if k == 'DeclStmt':
      for d in n.kids:
        if d.kind != 'VarDecl': continue
        for x in d.kids: sts = self.expr(x, sts)
        if d.id in self.vars and d.kids:
          if self.isopen(d.kids[-1]): self.lines[d.id] = d.line; sts = {self.set(s, d.id, 'open') for s in sts} | {self.set(s, d.id, 'null') for s in sts}
      return sts
    if k == 'ReturnStmt':
      for x in n.kids: sts = self.expr(x, sts)
      self.leave(sts, n); return set()
    if k == 'IfStmt':
      ks = [x for x in n.kids]
      a, b = self.split(ks[0], sts)
      return self.stmt(ks[1], a) | (self.stmt(ks[2], b) if len(ks) > 2 else b)
    if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
      if k == 'ForStmt':
        init, cond, inc, body = n.kids[0], n.kids[2], n.kids[3], n.kids[4]
        sts = self.stmt(init, sts)
      elif k == 'WhileStmt': cond, inc, body = n.kids[0], None, n.kids[-1]
      else: body, cond, inc = n.kids[0], n.kids[1], None
      seen = set(); out = set(); work = sts
      keep = self.brk, self.cnt; self.brk = []; self.cnt = []
      first = k == 'DoStmt'
      for i in range(8):
        if first: yes, no = work, set(); first = False
        elif cond.kind == 'Empty': yes, no = work, set()
        else: yes, no = self.split(cond, work)
        out |= no
        yes = yes - seen if seen else yes
        if not yes: break
        seen |= yes
        end = self.stmt(body, yes)
        for c in self.cnt: end = end | c
        self.cnt = []
        if inc is not None and inc.kind != 'Empty': end = self.expr(inc, end)
        work = end
      for b in self.brk: out |= b
      self.brk, self.cnt = keep
      return out
    if k == 'BreakStmt': self.brk.append(sts); return set()
    if k == 'ContinueStmt': self.cnt.append(sts); return set()
    if k == 'SwitchStmt':
      s0 = self.expr(n.kids[0], sts); keep = self.brk; self.brk = []
      out = set(s0); cur = set()
      b = n.kids[-1]
      for x in b.kids if b.kind == 'CompoundStmt' else [b]:
        if x.kind in ('CaseStmt', 'DefaultStmt'): cur = cur | s0
        while x.kind in ('CaseStmt', 'DefaultStmt'): x = x.kids[-1]
        cur = self.stmt(x, cur)
      for y in self.brk: out |= y
      self.brk = keep
      return out | cur
    if k in ('Empty', 'NullStmt'): return sts
    return self.expr(n, sts)

def native(rep, repo, und):
  n = 0
  for rel in cast.files(repo):
    with open('%s/%s' % (repo, rel), encoding='utf-8', errors='replace') as f: text = f.read()
    if not any(w in text for w in OPENC): continue
    F = cast.File(repo, rel)
    closers = set()
    while True:
      new = set()
      for name, f in F.funcs.items():
        ids = {p.id: i for i, p in enumerate(F.params(f))}
        for c in F.body(f).find('CallExpr'):
          for i, a in enumerate(cast.args(c)):
            x = a.strip()
            if x.kind == 'DeclRefExpr' and x.refid in ids and (cast.callee(c) in CLOSEC or (cast.callee(c), i) in closers): new.add((name, ids[x.refid]))
      if new <= closers: break
      closers |= new
    for name, f in F.funcs.items():
      sites = [c for c in F.body(f).find('CallExpr') if cast.callee(c) in OPENC]
      if not sites: continue
      n += len(sites)
      try: w = Native(F, f, closers)
      except Unclear: und['%s: %s' % (rel, name)] = 1; continue
      for v in sorted(set(w.bad)): rep.add('left open', '%s:%s|%s' % (rel, name, w.vars[v]), '%s in %s opens a file (%s) that is still open on some way out' % (name, rel, w.vars[v]), '%s:%s' % (rel, w.lines.get(v)))
  return n
