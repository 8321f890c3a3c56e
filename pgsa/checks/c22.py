"""C22: errors are never silently swallowed.

Rules, over every handler of the package:
 - broad: a handler that catches everything (bare, Exception, BaseException) raises on every way out;
 - failure: outside import-time probing of optional libraries, a handler that does not always raise does not catch the
   exceptions failures are signalled with (AssertionError, OSError and its kin, RuntimeError, MemoryError, ...);
 - guard: the statements guarded by a handler that does not always raise read no data of variables;
 - override: no finally block leaves by return/break/continue, no __exit__ answers true, no suppress() of broad types."""
import ast
from .. import runner as R
from ..engine import where, qualname, src

BROAD = {'Exception', 'BaseException', 'StandardError'}
FAILURE = {'AssertionError', 'OSError', 'IOError', 'EnvironmentError', 'RuntimeError', 'MemoryError', 'SystemError', 'NotImplementedError', 'FileNotFoundError', 'PermissionError', 'TimeoutError',
           'ConnectionError', 'BlockingIOError', 'InterruptedError', 'BufferError', 'KeyboardInterrupt', 'SystemExit', 'Warning', 'RecursionError', 'UnicodeError'}
READS = {'getview', 'getvalues', 'get', 'load', 'getweights', 'modify', 'loop_mem', 'loop', 'loopover', 'map_to', 'merge_axes'}
# functions whose documented job is to try files out and report what fails
REPORTERS = {'pygeode.formats.multifile.check_multi', 'pygeode.formats.opendap.DAPHandler.handle_dap'}

def fq(node): return '%s.%s' % (node._mod.name, qualname(node))

def names_of(prog, m, t, depth=0):
  """Exception class names a handler's type expression stands for."""
  if t is None: return {None}
  if isinstance(t, (ast.Tuple, ast.List)):
    out = set()
    for e in t.elts: out |= names_of(prog, m, e, depth)
    return out
  if isinstance(t, ast.BinOp): return names_of(prog, m, t.left, depth) | names_of(prog, m, t.right, depth)
  if isinstance(t, ast.Call) and src(t.func) == 'tuple' and t.args: return names_of(prog, m, t.args[0], depth)
  if isinstance(t, ast.Attribute): return {t.attr}
  if isinstance(t, ast.Name):
    if depth < 4:
      # a name standing for a class or tuple of classes, defined in an enclosing scope or the module
      p = t; scopes = []
      while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.ClassDef, ast.Module)): scopes.append(p)
        p = getattr(p, '_parent', None)
      for s in scopes + [m.tree]:
        for n in ast.walk(s):
          if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t.id for x in n.targets) and not isinstance(n.value, ast.Constant): return names_of(prog, m, n.value, depth + 1)
          if isinstance(n, ast.ClassDef) and n.name == t.id: return {t.id} | set()
        
    return {t.id}
  return {src(t)}

class Raises:
  """Whether a block leaves only by raising."""
  def __init__(self, prog):
    self.byname = {}
    for m in prog.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef): self.byname.setdefault(n.name, []).append(n)
    self.memo = {}
  def fn(self, name, depth):
    if name not in self.byname or depth > 3: return False
    if name not in self.memo:
      self.memo[name] = False
      self.memo[name] = all(self.block(f.body, depth + 1) for f in self.byname[name])
    return self.memo[name]
  def block(self, ss, depth=0):
    """True: every way out of the block is an exception (falling off the end is not)."""
    return self.out(ss, depth) == 'raise'
  def out(self, ss, depth):
    # 'raise' / 'falls' / 'leaves' (return, break, continue on some path)
    for s in ss:
      if isinstance(s, ast.Raise): return 'raise'
      if isinstance(s, (ast.Return, ast.Break, ast.Continue)): return 'leaves'
      if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value: return 'raise'
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        f = s.value.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm and (self.fn(nm, depth) or src(f) in ('sys.exit', 'os._exit')): return 'raise'
      if isinstance(s, ast.If):
        a, b = self.out(s.body, depth), self.out(s.orelse, depth)
        if 'leaves' in (a, b): return 'leaves'
        if a == b == 'raise': return 'raise'
      elif isinstance(s, (ast.With, ast.AsyncWith)):
        a = self.out(s.body, depth)
        if a != 'falls': return a
      elif isinstance(s, ast.Try):
        parts = [self.out(s.body + s.orelse, depth)] + [self.out(h.body, depth) for h in s.handlers]
        fin = self.out(s.finalbody, depth)
        if fin != 'falls': return fin
        if 'leaves' in parts: return 'leaves'
        if all(p == 'raise' for p in parts): return 'raise'
      elif isinstance(s, (ast.For, ast.While)):
        inner = [n for n in ast.walk(s) if isinstance(n, ast.Return)]
        if inner: return 'leaves'
    return 'falls'

def infunction(n):
  p = getattr(n, '_parent', None)
  while p is not None:
    if isinstance(p, (ast.FunctionDef, ast.Lambda)): return True
    p = getattr(p, '_parent', None)
  return False

def run(rep):
  eng = R.engine(); prog = eng.prog
  rz = Raises(prog)
  excsub = {}
  for m in prog.modules.values():
    for n in ast.walk(m.tree):
      if isinstance(n, ast.ClassDef): excsub[n.name] = n
  # functions only ever called from reporters report too
  callers = {}
  for m in prog.modules.values():
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Call):
        f = n.func; nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm: callers.setdefault(nm, set()).add(fq(n))
  def reporter(q, depth=0):
    if any(q == r or q.startswith(r + '.') for r in REPORTERS): return True
    if depth > 2: return False
    nm = q.split('.')[-1]
    cs = callers.get(nm, set()) - {q}
    mod = q.rsplit('.', 1)[0]
    return bool(cs) and all(c.startswith(mod.split('.')[0]) and reporter(c, depth + 1) for c in cs)
  nh = nt = nfin = 0
  for m in prog.modules.values():
    for t in ast.walk(m.tree):
      if isinstance(t, ast.Try):
        nt += 1
        if all(isinstance(s, ast.Pass) for s in t.body): continue
        for h in t.handlers:
          nh += 1
          names = names_of(prog, m, h.type)
          always = rz.block(h.body)
          if always: continue
          q = fq(t)
          label = '/'.join(sorted(str(x) if x else 'everything' for x in names))
          if (names & BROAD) or None in names:
            if reporter(q): continue
            rep.add('broad-handler', '%s|%s' % (q, label), '%s catches %s and does not raise on every way out of the handler' % (q, label), where(h))
            continue
          fail = names & FAILURE
          if fail and (infunction(t) or 'pygeode' not in m.name) and not reporter(q):
            rep.add('failure-swallowed', '%s|%s' % (q, label), '%s catches %s, which signals a failed operation, and carries on' % (q, '/'.join(sorted(fail))), where(h))
            continue
          if not infunction(t): continue
          for s in t.body:
            for n in ast.walk(s):
              if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in READS and not reporter(q):
                if n.func.attr == 'get' and len(n.args) and isinstance(n.args[0], ast.Constant): continue
                rep.add('read-guarded', '%s|%s|%s' % (q, label, n.func.attr), '%s guards a read of data (%s) with a handler for %s that carries on' % (q, src(n, 60), label), where(n))
        if t.finalbody:
          nfin += 1
          if leaves(t.finalbody): rep.add('finally-leaves', '%s' % fq(t), '%s leaves its finally block by return, break or continue, dropping the exception in flight' % fq(t), where(t.finalbody[0]))
      elif isinstance(t, (ast.With, ast.AsyncWith)):
        for i in t.items:
          c = i.context_expr
          if isinstance(c, ast.Call) and (src(c.func) == 'suppress' or src(c.func).endswith('.suppress')):
            nh += 1
            names = set()
            for a in c.args: names |= names_of(prog, m, a)
            bad = names & (BROAD | FAILURE)
            if bad: rep.add('suppress', '%s|%s' % (fq(t), '/'.join(sorted(bad))), '%s suppresses %s' % (fq(t), '/'.join(sorted(bad))), where(t))
            else:
              for s in t.body:
                for n in ast.walk(s):
                  if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in READS: rep.add('read-guarded', '%s|suppress|%s' % (fq(t), n.func.attr), '%s suppresses exceptions of a read of data (%s)' % (fq(t), src(n, 60)), where(n))
      elif isinstance(t, ast.FunctionDef) and t.name == '__exit__':
        for n in ast.walk(t):
          if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and not n.value.value): rep.add('exit-true', fq(t), '%s may answer true, which drops the exception in flight: return %s' % (fq(t), src(n.value)), where(n))
  rep.floor('handlers', nh, 20); rep.floor('try_statements', nt, 20)
  rep.coverage['finally_blocks'] = nfin
  rep.explanation = 'Every except clause, finally block, suppress() and __exit__ of the package.'

def leaves(ss):
  def walk(n, loop):
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return False
    if isinstance(n, ast.Return): return True
    if isinstance(n, (ast.Break, ast.Continue)) and not loop: return True
    l2 = loop or isinstance(n, (ast.For, ast.While))
    return any(walk(c, l2) for c in ast.iter_child_nodes(n))
  return any(walk(s, False) for s in ss)
