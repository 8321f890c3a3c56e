"""Runs analysis roots in parallel: one symbolic execution of the package per root."""
import json, multiprocessing as mp, sys, os, time
from .engine import Engine, State, AV, Star, Stop, Budget, join, joinall
from . import ops, cuts
from .report import VERIF

sys.setrecursionlimit(12000)
HEAVY = ('pygeode.formats', 'pygeode.eof', 'pygeode.svd', 'pygeode.ensemble', 'pygeode.server')
BUDGET = 40000

_eng = None
def engine():
  global _eng
  if _eng is None:
    _eng = Engine().load_all()
    cuts.tables(_eng)
  return _eng

_work = None
_mark = None
def _call(x):
  if _eng is not None and _mark is not None:
    # every item starts from the same object numbers, whatever ran in this worker before
    for d, n in zip((_eng.intern, _eng.ctxs), _mark):
      while len(d) > n: d.popitem()
    for c in [c for c in _eng.mrocache if c.n > _mark[2]]: del _eng.mrocache[c]
    _eng.nobj = _mark[2]; _eng.ids.clear(); _eng.ids.update(_mark[3]); _eng.multi.clear(); _eng.multi.update(_mark[4]); _eng.evseen.clear(); _eng.evseen.update(_mark[5])
  return _work(x)
def parallel(work, items, jobs=None):
  """[(item, result)] of work(item), in item order; work must return plain data."""
  global _work, _mark
  _work = work
  _mark = (len(_eng.intern), len(_eng.ctxs), _eng.nobj, dict(_eng.ids), set(_eng.multi), set(_eng.evseen)) if _eng is not None else None
  jobs = jobs or min(8, os.cpu_count() or 4)
  items = list(items)
  if len(items) < 4 or os.environ.get('PGSA_SERIAL'): return [(i, work(i)) for i in items]
  import gc
  gc.collect(); gc.freeze()
  with mp.get_context('fork').Pool(jobs) as p:
    return list(zip(items, p.map(_call, range_items(items), chunksize=1)))
def range_items(items): return items

class Root:
  """One entry point: how to call it symbolically."""
  def __init__(self, name, kind, func=None, cls=None, heavy=False):
    self.name, self.kind, self.func, self.cls, self.heavy = name, kind, func, cls, heavy
  def __repr__(self): return self.name

def is_public(n): return not n.startswith('_')

SKIPCLS = ('pygeode.plot', 'pygeode.timeticker', 'pygeode.tutorial', 'pygeode.ext_xarray', 'pygeode.options', 'pygeode.plugins', 'pygeode.utils', 'pygeode.progress')

def function_roots(eng):
  out = []
  seen = set()
  for q, fo in ops.public_functions(eng):
    if fo in seen: continue
    seen.add(fo)
    out.append(Root(q, 'func', fo, None, q.startswith(HEAVY)))
  return out

def method_roots(eng, bases=('pygeode.var.Var', 'pygeode.axis.Axis', 'pygeode.dataset.Dataset', 'pygeode.view.View'), skip=('getview', 'getvalues', '__init__', '__new__', '__getattr__')):
  """Methods defined in the classes of the object model and their subclasses, self symbolic."""
  out = []; seen = set()
  for b in bases:
    for c in ops.subclasses(eng, b):
      q = c.info['qual']
      if q.startswith(SKIPCLS) or c in seen: continue
      seen.add(c)
      for n, fo, k in ops.own_methods(eng, c):
        if n in skip: continue
        if fo.info['node'].__class__.__name__ == 'Lambda': continue
        own = fo.info['qual'].rsplit('.', 1)[0] == q
        if not own: continue            # attached functions are roots of their own
        out.append(Root('%s.%s' % (q, n), 'method' + k, fo, c, q.startswith(HEAVY)))
  return out

def var_classes(eng):
  """Concrete variable classes: those that can produce values."""
  out = []
  for c in ops.subclasses(eng, 'pygeode.var.Var'):
    if c.info['qual'].startswith(SKIPCLS): continue
    out.append(c)
  return out

def attached_roots(eng):
  """Operations attached to Var and Dataset after their definition (operators, wrapped functions)."""
  out = []
  known = {fo for q, fo in ops.public_functions(eng)}
  for b in ('pygeode.var.Var', 'pygeode.dataset.Dataset'):
    c = eng.find_class_any(b)
    for n, fo, k in ops.own_methods(eng, c):
      if fo in known or fo.info['qual'].rsplit('.', 1)[0] == b or k != 'm': continue
      if fo.info['node'].__class__.__name__ == 'Lambda': continue
      out.append(Root('%s.%s' % (b, n), 'methodm', fo, c))
  return out

def class_roots(eng):
  """Constructors of the classes of the object model."""
  out = []; seen = set()
  for b in ('pygeode.var.Var', 'pygeode.axis.Axis', 'pygeode.dataset.Dataset', 'pygeode.view.View'):
    for c in ops.subclasses(eng, b):
      q = c.info['qual']
      if q.startswith(SKIPCLS) or c in seen: continue
      seen.add(c)
      out.append(Root(q + '()', 'new', None, c, q.startswith(HEAVY)))
  return out

def api():
  with open(os.path.join(VERIF, 'data', 'api.json')) as f: return json.load(f)

def roots(eng, kinds=('functions', 'methods', 'attached', 'classes')):
  """The operations confirmed as entry points that the current tree still has."""
  a = api(); out = []
  for k, rs in (('functions', function_roots), ('methods', method_roots), ('attached', attached_roots), ('classes', class_roots)):
    if k not in kinds: continue
    names = set(a[k])
    out += [r for r in rs(eng) if r.name in names]
  return out

def prepare(eng, root):
  """Install the summaries for a root; the root itself is never summarised."""
  t = eng.cutsets[2 if root.heavy else 1]
  q = root.func.info['qual'] if root.func is not None else None
  eng.opaque = t if q not in t else {k: v for k, v in t.items() if k != q}
  eng.budget = BUDGET

def selfsym(eng, c, name='self'):
  return eng.sym(name, eng.typename(c))

def run_root(eng, root, st=None, types=None):
  st = st or eng.new_state()
  prepare(eng, root)
  try:
    if root.kind == 'func': r = ops.run_func(eng, root.func, st, types)
    elif root.kind == 'methodm': r = ops.run_func(eng, root.func, st, types, selfav=selfsym(eng, root.cls))
    elif root.kind == 'methodc': r = ops.run_func(eng, root.func, st, types, selfav=eng.av(root.cls))
    elif root.kind == 'methods': r = ops.run_func(eng, root.func, st, types)
    elif root.kind == 'new':
      init = eng.classattr(root.cls, '__init__', st)
      r = construct(eng, root.cls, st, types)
    else: raise ValueError(root.kind)
    return r, st, 'done' if r is not None else 'raises'
  except Budget: return None, st, 'budget'
  except RecursionError: return None, st, 'budget'

def construct(eng, c, st, types=None):
  """A symbolic construction call of class c."""
  init = eng.classattr(c, '__init__', st)
  fo = None
  for o in (init.objs if init is not None else ()):
    if o.kind == 'func': fo = o
  if fo is None: args, kw = [], {}
  else:
    args, kw = ops.sym_bindings(eng, fo, st, types, selfav=eng.NONE)
    args = args[1:]
  return eng.root_call(eng.av(c), args, kw, st, mod=c.info['mod'], node=c.info['node'])
