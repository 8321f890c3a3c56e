"""C01: reading a variable leaves no trace.

Rule: while a reader (getview/getvalues of every variable class, and the shared reading machinery of Var, View
and tools) is executed symbolically, no store reaches an object that existed before the read began."""
from .. import runner as R, reading
from ..engine import where, qualname

# the reading machinery shared by all variables: (qualified name)
SHARED = ('pygeode.view.View.get', 'pygeode.var.Var.get', 'pygeode.var.Var.load', 'pygeode.var.Var.__getitem__', 'pygeode.var.Var.__array__', 'pygeode.view.View.loop_mem', 'pygeode.view.View._loop_mem',
          'pygeode.view.View.loop_contiguous', 'pygeode.tools.loopover', 'pygeode.climat.loopover', 'pygeode.tools.npnansum', 'pygeode.view.View.map_to')
# open network connections kept per host: they carry no values
CONNECTIONS = {'pygeode.formats.opendap.readurl'}
# an output list by contract
OUT = {('pygeode.view.View.map_to', 'order')}

def run(rep):
  eng = R.engine()
  targets = reading.targets(eng)
  public = {r.name: r for r in R.roots(eng, ('functions', 'methods', 'attached'))}
  shared = [public[q] for q in SHARED if q in public]
  items = [('reader', i) for i in range(len(targets))] + [('shared', i) for i in range(len(shared))]
  real_alloc = eng.alloc

  def go(it):
    kind, i = it
    hits = {}; n = [0]; new = set(); pre = set()
    def alloc(k, node, st, *a, **kw):
      o = real_alloc(k, node, st, *a, **kw); new.add(o); return o
    def old(o):
      if o is None: return None
      if o.kind == 'sym': return o.info['path'] if not o.info['path'].startswith(('new:', 'view<', 'pbar')) or o.info['path'] == 'view' else None
      if o.kind in ('class', 'module'): return '%s %s' % (o.kind, o.info.get('qual') or o.info.get('name'))
      if o in new: return None
      if o in eng.base: return 'module-level %s' % describe(o)
      if o in pre: return '%s made when the variable was built' % describe(o)
      return None
    def lis(eng, kind, node, d):
      if kind == 'new': new.add(d['obj']); return
      if kind in ('mutate', 'setattr', 'delattr'):
        n[0] += 1
        o = d['obj']; how = d['how'] if kind == 'mutate' else '%s .%s' % (kind, d['attr'])
        p = old(o)
        if p is None: return
      elif kind == 'global_write': p = 'global %s' % d.get('name'); how = 'assignment'
      else: return
      if p.startswith('module-level') and CONNECTIONS & set(map(str, eng.chain())): return
      hits.setdefault((qualname(node), p, how), ('%s in %s' % (where(node), qualname(node)), eng.chain()))
    if kind == 'reader':
      c, m, fo = targets[i]
      heavy = c.info['qual'].startswith(R.HEAVY)
      eng.listeners = []
      selfav, st, how = reading.make(eng, c, heavy)
      st = st.copy()
      d = st.heap.flat()
      pre.update(o for o in d if d[o] is not None)
      eng.alloc = alloc
      eng.listeners = [lis]
      try: r, st, s = reading.read(eng, c, m, fo, selfav, st, heavy)
      finally: eng.alloc = real_alloc
    else:
      how = 'root'
      eng.listeners = [lis]
      eng.alloc = alloc
      try: r, st, s = R.run_root(eng, shared[i])
      finally: eng.alloc = real_alloc
    return how, s, n[0], list(hits.items())
  done = built = stores = 0
  for (kind, i), (how, s, n, hits) in R.parallel(go, items):
    name = '%s.%s' % (targets[i][0].info['qual'], targets[i][1]) if kind == 'reader' else shared[i].name
    done += s == 'done'; built += how == 'constructed'; stores += n
    if s == 'budget': rep.assumptions.append('analysis of %s stopped at its step budget' % name)
    for (q, p, h), (loc, chain) in hits:
      if (name, p) in OUT: continue
      rep.add('read-writes-state', '%s|%s|%s' % (q, p, h), 'reading %s changes %s (%s), reached through %s' % (name, p, h, ' > '.join(str(c) for c in chain[-4:])), loc)
  rep.floor('readers_analysed', len(targets), 120)
  rep.floor('readers_completed', done, 110)
  rep.coverage['instances_built_from_their_constructor'] = built
  rep.coverage['stores_examined'] = stores
  rep.explanation = 'Every variable class is constructed symbolically and its reader executed on an arbitrary region; every store made during the read is checked against the objects that existed before it.'

def describe(o):
  t = o.info.get('node') if o.info else None
  return o.kind
