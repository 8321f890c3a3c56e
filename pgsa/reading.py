"""Symbolic construction of every variable class, followed by a read of an arbitrary region."""
from . import runner as R, ops
from .engine import AV, Budget, where, qualname

READERS = ('getview', 'getvalues')

# Classes whose instances are made by their module's opener from file handles; read with a symbolic self.
def targets(eng):
  """(class, reader method name, function) for every class that computes or reads values."""
  out = []; seen = set()
  for c in R.var_classes(eng):
    for m in READERS:
      f = eng.classattr(c, m, None) if False else None
    for m in READERS:
      v = eng.classattr(c, m, eng.new_state())
      if v is None: continue
      for fo in v.objs:
        if fo.kind == 'func':
          if (c, m) in seen: continue
          seen.add((c, m)); out.append((c, m, fo))
  return out

def names(c): return c.info['qual']

def make(eng, c, heavy):
  """A symbolic instance: constructed if the constructor can be run, else an arbitrary object of the class."""
  st = eng.new_state()
  root = R.Root(c.info['qual'], 'new', None, c, heavy)
  r, st, s = R.run_root(eng, root, st)
  insts = frozenset(o for o in r.objs if o.kind == 'inst' and o.info['cls'] is c) if r is not None else frozenset()
  if insts and s == 'done': return AV(insts), st, 'constructed'
  return eng.sym('self', eng.typename(c)), eng.new_state(), 'assumed'

def read(eng, c, m, fo, selfav, st, heavy, on=None):
  """Call the reader; returns (value, state, status). `on` is called just before the read."""
  eng.opaque = eng.cutsets[1]
  eng.budget = eng.steps + R.BUDGET
  if on is not None: on(st)
  a = fo.info['node'].args
  nargs = len(a.posonlyargs + a.args) - 1
  if m == 'getview':
    args = [selfav, eng.sym('view', 'View')]
    kw = {}
    if nargs >= 2: args.append(eng.sym('pbar', 'cls:pygeode.progress.PBar'))
  else: args = [selfav, eng.sym('start', 'list:int'), eng.sym('count', 'list:int')]
  try:
    r = eng.root_call(eng.av(fo), args, {}, st, mod=fo.info['mod'], node=fo.info['node'])
    return r, st, 'done' if r is not None else 'raises'
  except (Budget, RecursionError): return None, st, 'budget'
