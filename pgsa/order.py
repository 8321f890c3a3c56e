"""Where does the order of an unordered collection show?

Given an expression whose iteration order is arbitrary (a set, a directory listing), follow on the syntax tree what
its enclosing function - and the functions of the package it is handed to - make of that order. Only uses that expose
the order for certain are reported; sorting, membership, counting, folding and keyed stores do not expose it."""
import ast

CONSUME = {'sorted', 'set', 'frozenset', 'len', 'any', 'all', 'min', 'max', 'sum', 'dict', 'bool', 'str', 'repr', 'print', 'isinstance', 'hasattr', 'type', 'id', 'iter_is'}
SEQ = {'list', 'tuple', 'enumerate', 'reversed', 'iter', 'zip', 'map', 'filter', 'array', 'asarray', 'fromiter', 'concatenate', 'hstack', 'stack', 'next', 'chain', 'from_iterable', 'islice', 'join', 'deque'}
ELEMENTWISE = {'nonzero', 'concat', 'replace_axes', '_getitem_asvar', 'floor', 'ceil', 'round', 'abs', 'where', 'repeat', 'tile', 'atleast_1d', 'ascontiguousarray', 'vstack', 'append', 'int32', 'float64', 'take', 'cumsum', 'diff', 'array'} - {'append'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)

def fn_of(n):
  n = getattr(n, '_parent', None)
  while n is not None and not isinstance(n, FUNCS): n = getattr(n, '_parent', None)
  return n

def names(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

def inside(n, top):
  while n is not None and n is not top: n = getattr(n, '_parent', None)
  return n is top

def fname(call):
  f = call.func
  return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None

def is_len_one(test, name):
  for c in ast.walk(test):
    if isinstance(c, ast.Compare) and isinstance(c.left, ast.Call) and fname(c.left) == 'len' and c.left.args and ast.dump(c.left.args[0]) == name:
      for op, v in zip(c.ops, c.comparators):
        if isinstance(v, ast.Constant) and (isinstance(op, ast.Eq) and v.value in (0, 1) or isinstance(op, ast.LtE) and v.value == 1 or isinstance(op, ast.Lt) and v.value == 2
                                            or isinstance(op, (ast.NotEq, ast.Gt)) and v.value == 1): return True
  return False

def guarded(n, expr):
  """A test of the collection's length decides whether this use of it runs."""
  key = ast.dump(expr)
  p = n
  while p is not None and not isinstance(p, FUNCS):
    q = getattr(p, '_parent', None)
    if isinstance(q, (ast.If, ast.IfExp, ast.While)) and is_len_one(q.test, key): return True
    for f in ('body', 'orelse', 'finalbody'):
      body = getattr(q, f, None)
      if isinstance(body, list) and p in body:
        for s in body[:body.index(p)]:
          if isinstance(s, (ast.Assert, ast.If)) and is_len_one(s.test, key): return True
    p = q
  return False

class Order:
  def __init__(self, resolve, callers=lambda fn: None):
    self.resolve = resolve      # call node -> ('class', name) | ('func', def node) | None
    self.callers = callers      # def node -> call nodes of a helper, or None where the caller is the user

  def exposures(self, e):
    """[(construct, node)] where the arbitrary order of the collection `e` shows."""
    self.out = []; self.seen = set()
    self.collection(e, e, 0)
    return self.out

  def hit(self, what, n):
    if (what, id(n)) not in self.seen: self.seen.add((what, id(n))); self.out.append((what, n))

  def once(self, tag, n):
    if (tag, id(n)) in self.seen: return False
    self.seen.add((tag, id(n))); return True

  def collection(self, e, root, d):
    """e: an unordered collection used as an expression."""
    if d > 40 or not self.once('c', e): return
    p = e._parent
    if isinstance(p, ast.For) and p.iter is e: self.loop(p, p.target, p.body, e, d)
    elif isinstance(p, ast.comprehension) and p.iter is e: self.comp(p._parent, p, d)
    elif isinstance(p, ast.Starred): self.value(p, d) if isinstance(p._parent, (ast.List, ast.Tuple)) else None
    elif isinstance(p, ast.YieldFrom): self.hit('yields its elements in turn', p)
    elif isinstance(p, ast.Return):
      for c in self.callers(fn_of(p)) or (): self.collection(c, c, d + 1)
    elif isinstance(p, ast.Call) and e in p.args:
      n = fname(p)
      if n in SEQ and not guarded(p, e): self.value(p, d)
      elif n == 'pop': pass
      elif n in ('extend', 'writelines') and isinstance(p.func, ast.Attribute): self.grown(p.func.value, p, d)
      elif n not in CONSUME:
        r = self.resolve(p)
        if r is not None and r[0] == 'func': self.param(r[1], p.args.index(e), p, 'collection', d)
    elif isinstance(p, ast.Attribute) and isinstance(p._parent, ast.Call) and p._parent.func is p and p.attr == 'pop' and not p._parent.args:
      if not guarded(p._parent, e) and not isinstance(p._parent._parent, ast.Expr) and not self.worklist(p._parent, e): self.value(p._parent, d)
    elif isinstance(p, ast.AugAssign) and p.value is e and isinstance(p.op, ast.Add): self.grown(p.target, p, d)
    elif isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is e:
      for t in (p.targets if isinstance(p, ast.Assign) else [p.target]):
        if isinstance(t, (ast.Tuple, ast.List)): self.hit('is unpacked into variables', p)

  def worklist(self, call, e):
    p = call._parent
    while p is not None and not isinstance(p, FUNCS):
      if isinstance(p, ast.While) and ast.dump(e) in ast.dump(p.test).replace('Store', 'Load'): return True
      p = getattr(p, '_parent', None)
    return False

  def comp(self, c, gen, d):
    if isinstance(c, (ast.SetComp, ast.DictComp)): return
    if isinstance(c, ast.ListComp) and not names(c.elt): return
    self.value(c, d)

  def value(self, v, d):
    """v: a sequence in arbitrary order, or one element picked by it."""
    if d > 40 or not self.once('v', v): return
    p = getattr(v, '_parent', None)
    if isinstance(p, ast.Return):
      fn = fn_of(p)
      cs = self.callers(fn)
      if not cs or any(not self.consumed(c, 0) for c in cs): self.hit('is returned', p)
    elif isinstance(p, ast.Lambda): self.hit('is returned', p)
    elif isinstance(p, (ast.Yield, ast.YieldFrom)): self.hit('is yielded', p)
    elif isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is v:
      for t in (p.targets if isinstance(p, ast.Assign) else [p.target]): self.bound(t, p, d)
    elif isinstance(p, ast.NamedExpr): self.bound(p.target, p, d); self.value(p, d)
    elif isinstance(p, ast.AugAssign) and p.value is v: self.grown(p.target, p, d)
    elif isinstance(p, ast.Starred):
      q = p._parent
      if isinstance(q, (ast.List, ast.Tuple)): self.value(q, d + 1)
      elif isinstance(q, ast.Call) and fname(q) in SEQ - {'zip', 'map'}: self.value(q, d + 1)     # zip(*x) transposes: its own order is not that of x
    elif isinstance(p, (ast.List, ast.Tuple)) and isinstance(getattr(p, 'ctx', None), ast.Load): self.value(p, d + 1)
    elif isinstance(p, ast.Dict) and v in p.values: self.value(p, d + 1)
    elif isinstance(p, ast.IfExp) and v is not p.test and not guarded(v, v): self.value(p, d + 1)
    elif isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add): self.value(p, d + 1)
    elif isinstance(p, (ast.BinOp, ast.BoolOp, ast.UnaryOp)): self.value(p, d + 1)
    elif isinstance(p, ast.Compare) and not isinstance(p.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)): self.value(p, d + 1)
    elif isinstance(p, ast.Subscript) and p.slice is v and isinstance(p.ctx, ast.Load): self.value(p, d + 1)
    elif isinstance(p, ast.Attribute) and isinstance(p._parent, ast.Call) and p._parent.func is p and p.attr in ELEMENTWISE | {'copy', 'tolist', 'astype', 'flatten', 'ravel', 'reshape', '__iter__', 'items', 'split', 'encode'}: self.value(p._parent, d + 1)
    elif isinstance(p, ast.Subscript) and p.value is v:
      if not guarded(p, v): self.value(p, d + 1)
    elif isinstance(p, ast.For) and p.iter is v: self.loop(p, p.target, p.body, v, d + 1)
    elif isinstance(p, ast.comprehension) and p.iter is v: self.comp(p._parent, p, d + 1)
    elif isinstance(p, ast.keyword):
      self.argument(p._parent, p.arg, v, d)
    elif isinstance(p, ast.Call) and v in p.args: self.argument(p, p.args.index(v), v, d)

  def argument(self, call, pos, v, d):
    n = fname(call)
    r = self.resolve(call)
    if r is not None and r[0] == 'class': self.hit('is what %s is made of' % r[1], call)
    elif r is not None and r[0] == 'func': self.param(r[1], pos, call, 'value', d)
    elif n in CONSUME: pass
    elif (n in SEQ or n in ELEMENTWISE and isinstance(call.func, ast.Attribute)) and pos != 'key': self.value(call, d + 1)
    elif n in ('append', 'extend', 'insert', 'appendleft') and isinstance(call.func, ast.Attribute): self.grown(call.func.value, call, d)

  def consumed(self, e, d):
    """Every use of the value is one its order cannot show in."""
    p = getattr(e, '_parent', None)
    if d > 4: return False
    if isinstance(p, ast.Expr): return True
    if isinstance(p, ast.Call) and e in p.args: return fname(p) in CONSUME - {'str', 'repr', 'dict'} or fname(p) in SEQ and self.consumed(p, d + 1) or fname(p) in ('update', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'fromkeys', 'isdisjoint')
    if isinstance(p, ast.Compare): return e in p.comparators and isinstance(p.ops[0], (ast.In, ast.NotIn))
    if isinstance(p, ast.comprehension): return isinstance(p._parent, (ast.SetComp, ast.DictComp)) or self.consumed(p._parent, d + 1)
    if isinstance(p, ast.For) and p.iter is e:
      for s in p.body:
        for n in ast.walk(s):
          if isinstance(n, (ast.Return, ast.Yield, ast.AugAssign, ast.Break)): return False
          if isinstance(n, ast.Assign) and not all(isinstance(t, ast.Subscript) for t in n.targets): return False
          if isinstance(n, ast.Call) and not (fname(n) in ('add', 'discard', 'setdefault', 'print', 'setattr') or isinstance(n._parent, (ast.Assign, ast.Call)) and fname(n) in CONSUME): return False
      return True
    if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets):
      fn = fn_of(p)
      if fn is None: return False
      for t in p.targets:
        loads = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Load) and (n.lineno, n.col_offset) > (p.lineno, p.col_offset)]
        if not all(self.sorted_before(n, fn) or isinstance(n._parent, ast.Attribute) and n._parent.attr == 'sort' or self.consumed(n, d + 1) for n in loads): return False
      return True
    return False

  def param(self, fn, pos, call, how, d):
    if isinstance(fn, ast.Lambda) or d > 30: return
    a = fn.args; ps = [x.arg for x in a.posonlyargs + a.args]
    if isinstance(pos, int):
      if ps[:1] in (['self'], ['cls']) and isinstance(call.func, ast.Attribute): pos += 1
      if pos >= len(ps): return
      pos = ps[pos]
    elif pos not in ps + [x.arg for x in a.kwonlyargs]: return
    stores = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == pos and isinstance(n.ctx, ast.Store)]
    for n in ast.walk(fn):
      if isinstance(n, ast.Name) and n.id == pos and isinstance(n.ctx, ast.Load):
        if any((x.lineno, x.col_offset) < (n.lineno, n.col_offset) and self.dominates(x, n) for x in stores): continue
        if how == 'value': self.use(n, fn, d + 1)
        else: self.collection(n, n, d + 1)

  def sorted_before(self, n, fn):
    """An unconditional name.sort() between the name's making and this use."""
    for c in ast.walk(fn):
      if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'sort' and isinstance(c.func.value, ast.Name) and c.func.value.id == n.id:
        s = c
        while not isinstance(s, ast.stmt): s = s._parent
        blk = s._parent
        if inside(n, blk) and (s.lineno, s.col_offset) < (n.lineno, n.col_offset): return True
    return False

  def use(self, n, fn, d):
    """A read of a name holding a sequence in arbitrary order."""
    if self.sorted_before(n, fn): return
    self.value(n, d)

  def bound(self, t, stmt, d):
    if isinstance(t, ast.Attribute): self.hit('is kept as .%s' % t.attr, stmt)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts: self.bound(x.value if isinstance(x, ast.Starred) else x, stmt, d)
    elif isinstance(t, ast.Subscript): self.grown(t.value, stmt, d)
    elif isinstance(t, ast.Name): self.uses(t.id, stmt, d)

  def uses(self, name, stmt, d):
    fn = fn_of(stmt)
    if fn is None or isinstance(fn, ast.Lambda): return
    stores = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
    for n in ast.walk(fn):
      if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
        if (n.lineno, n.col_offset) <= (stmt.lineno, stmt.col_offset): continue
        if inside(n, stmt): continue
        # a later assignment at the same or an outer level replaces the value
        if any((stmt.end_lineno, stmt.end_col_offset) <= (x.lineno, x.col_offset) < (n.lineno, n.col_offset) and self.dominates(x, n) for x in stores): continue
        self.use(n, fn, d + 1)

  def dominates(self, x, n):
    s = x
    while not isinstance(s, ast.stmt): s = s._parent
    if inside(n, s): return False
    return inside(n, s._parent) and not isinstance(s, (ast.For, ast.AugAssign))

  def grown(self, r, stmt, d):
    """A list that grows in arbitrary order, or a container that receives the sequence."""
    if isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name): self.hit('is kept in .%s' % r.attr, stmt)
    elif isinstance(r, ast.Name):
      s = stmt
      while not isinstance(s, ast.stmt): s = s._parent
      self.uses(r.id, s, d)

  def loop(self, f, target, body, e, d):
    if not self.once('l', f): return
    tn = names(target)
    # names computed from the element inside the loop
    dep = set(tn)
    for _ in range(3):
      for s in body:
        for n in ast.walk(s):
          if isinstance(n, ast.Assign) and names(n.value) & dep:
            for t in n.targets:
              if isinstance(t, (ast.Name, ast.Tuple)): dep |= names(t)
          elif isinstance(n, (ast.For, ast.comprehension)) and names(n.iter) & dep: dep |= names(n.target)
    fn = fn_of(f)
    for s in body:
      for n in ast.walk(s):
        if fn_of(n) is not fn: continue
        if isinstance(n, (ast.Yield,)): self.hit('is yielded element by element', n)
        elif isinstance(n, ast.Return) and n.value is not None and names(n.value) & tn and not self.selects(n, f, tn): self.hit('decides which element is returned', n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'appendleft') and any(names(a) & dep for a in n.args):
          r = n.func.value
          if isinstance(r, ast.Name) and r.id in dep - tn and self.made_in(r.id, body): continue
          if isinstance(r, ast.Name) and r.id in tn: continue
          self.grown_after(r, f, d)
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.value, (ast.List, ast.Tuple, ast.ListComp)) and names(n.value) & dep: self.grown_after(n.target, f, d)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in tn:
          x = n.targets[0].id
          if isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and x in names(n.value) and any(isinstance(y, (ast.List, ast.Tuple)) for y in (n.value.left, n.value.right)) and names(n.value) & dep: self.grown_after(n.targets[0], f, d)
          elif isinstance(n.value, ast.Name) and n.value.id in tn and not self.selects(n, f, tn): self.uses(x, f, d)

  def made_in(self, name, body):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for s in body for n in ast.walk(s))

  def selects(self, n, f, tn):
    """The statement runs only for an element a comparison picks out (by equality, or as an extreme)."""
    p = n._parent
    while p is not f:
      if isinstance(p, ast.If):
        for c in ast.walk(p.test):
          if isinstance(c, ast.Compare) and any(isinstance(o, (ast.Eq, ast.Is, ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in c.ops) and names(c) & tn: return True
          if isinstance(c, ast.Call) and names(c) & tn and fname(c) not in ('isinstance', 'hasattr', 'callable'): return True
      p = p._parent
    return False

  def grown_after(self, r, f, d):
    if isinstance(r, ast.Attribute): self.hit('is kept in .%s' % r.attr, f)
    elif isinstance(r, ast.Name): self.uses(r.id, f, d)
