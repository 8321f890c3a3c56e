"""C02: no operation mutates what it is given.

Rule: in a symbolic execution of every public operation, no store (attribute set or delete, item store,
in-place operator, mutating method, out= argument of numpy or native routine) reaches an object that entered
through the operation's arguments (or through attributes and elements of them)."""
from .. import runner as R
from ..engine import where, qualname

# parameter that is an output by the operation's contract, and why
OUT = {
  ('pygeode.axis.Axis.get_slice', 'kwargs'): "the selection keywords are consumed by the axis that uses them; the method is Var.__call__'s helper",
  ('pygeode.view.View.map_to', 'order'): 'documented output list',
}

def target(o):
  return o.info['path']

def relevant(o):
  """An object given by the caller (a progress display is meant to change)."""
  return o.kind == 'sym' and not o.info['path'].startswith(('new:', 'view<new', 'pbar'))

def run(rep):
  eng = R.engine()
  roots = R.roots(eng)
  def go(i):
    root = roots[i]; hits = {}; n = [0]
    def lis(eng, kind, node, d):
      if kind in ('mutate', 'setattr', 'delattr', 'aug'): n[0] += 1
      if kind == 'mutate' and relevant(d['obj']): how = d['how']; o = d['obj']
      elif kind in ('setattr', 'delattr') and d['obj'] is not None and relevant(d['obj']): how = '%s .%s' % (kind, d['attr']); o = d['obj']
      else: return
      hits.setdefault((target(o), how), ('%s in %s' % (where(node), qualname(node)), eng.chain()))
    eng.listeners = [lis]
    r, st, s = R.run_root(eng, root)
    return s, n[0], eng.steps, [(k, v) for k, v in hits.items()]
  stores = steps = done = 0
  for i, (s, n, k, hits) in R.parallel(go, range(len(roots))):
    root = roots[i]
    stores += n; steps += k; done += s == 'done'
    if s == 'budget': rep.assumptions.append('analysis of %s stopped at its step budget' % root.name)
    for (path, how), (loc, chain) in hits:
      if (root.name, path) in OUT: continue
      rep.add('mutates-input', '%s|%s' % (root.name, path),
              '%s changes its argument (%s of %s), reached through %s' % (root.name, how, path, ' > '.join(str(c) for c in chain[-4:])), loc)
  rep.floor('operations_analysed', len(roots), 330)
  rep.floor('operations_completed', done, 300)
  rep.floor('stores_examined', stores, 1000)
  rep.coverage['steps'] = steps
  rep.explanation = 'Each public function, method and constructor of the package is executed symbolically from its source with fully symbolic arguments; every store event is checked against the objects reachable from the arguments.'
