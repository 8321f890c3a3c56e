"""C03: metadata dictionaries are owned by one object.

Rules, over a symbolic execution of every public operation and constructor:
 - no store goes into a dictionary that belongs to a class or is a default argument;
 - every variable, axis or dataset object the operation makes and returns holds metadata dictionaries that are
   not an argument's, not a class's, not a default argument's, and not another object's."""
from .. import runner as R
from ..engine import AV, where, qualname

DICTS = {'Var': ('atts', 'plotatts'), 'Axis': ('atts', 'plotatts', 'auxarrays', 'auxatts'), 'Dataset': ('atts',)}

NAMES = {n for v in DICTS.values() for n in v}
# internal stages of a save: the copies they make are written and dropped, never given to the user
STAGES = {'pygeode.formats.finalize_save', 'pygeode.formats.cfmeta.encode_cf'}

def kind_of(eng, cls):
  m = [c.info['qual'] for c in eng.mro(cls)]
  if 'pygeode.axis.Axis' in m: return 'Axis'
  if 'pygeode.var.Var' in m: return 'Var'
  if 'pygeode.dataset.Dataset' in m: return 'Dataset'

def kind_sym(eng, o):
  c = eng.typeclass(o.info['type'].rstrip('?'))
  return kind_of(eng, c) if c is not None else None

def made(eng, o):
  if o.kind == 'inst': return kind_of(eng, o.info['cls'])
  if o.kind == 'sym' and 'orig' in o.info: return kind_sym(eng, o)

def reach(eng, st, r):
  """Objects of the object model made by the operation and reachable from its result."""
  seen = set(); out = []; todo = list(r.objs)
  while todo:
    o = todo.pop()
    if o in seen or len(seen) > 4000: continue
    seen.add(o)
    if made(eng, o): out.append(o)
    if o.kind in ('inst', 'list', 'tuple', 'dict', 'set', 'gen'):
      for k, v in eng.fields(st, o).items():
        if isinstance(v, AV): todo += v.objs
        elif isinstance(v, (tuple, list)):
          for x in v:
            if isinstance(x, AV): todo += x.objs
    elif o.kind == 'sym' and 'orig' in o.info:
      for k, v in eng.fields(st, o).items():
        if isinstance(v, AV): todo += v.objs
  return out

def run(rep):
  eng = R.engine()
  roots = R.roots(eng)
  shared_base = {}
  for o, f in eng.base.items():
    if o.kind == 'class':
      for k, v in f.items():
        if isinstance(v, AV):
          for x in v.objs:
            if x.kind == 'dict' and k in NAMES: shared_base[x] = 'the class-wide default %s.%s' % (o.info['qual'], k)
    elif o.kind == 'func':
      for v in tuple(f.get('defaults', ()) or ()) + tuple(x for x in (f.get('kwdefaults', ()) or ()) if x is not None):
        for x in v.objs:
          if x.kind == 'dict': shared_base.setdefault(x, 'a default argument of %s' % o.info['qual'])
  def go(i):
    root = roots[i]; hits = {}; n = [0, 0]
    def lis(eng, kind, node, d):
      if kind == 'mutate' and d['obj'].kind == 'dict':
        n[0] += 1
        o = d['obj']
        if o in shared_base and 'class-wide' in shared_base[o]:
          hits.setdefault(('writes', qualname(node), shared_base[o]), ('%s in %s' % (where(node), qualname(node)), 'reached through %s' % ' > '.join(map(str, eng.chain()[-4:]))))
    eng.listeners = [lis]
    r, st, s = R.run_root(eng, root)
    eng.listeners = []
    if r is not None:
      owner = {}
      for o in reach(eng, st, r):
        k = made(eng, o)
        cn = o.info['cls'].info['qual'] if o.kind == 'inst' else 'copy of %s' % o.info['orig'].info['path']
        for a in DICTS[k]:
          v = eng.getf(st, o, a)
          if v is None:
            if o.kind == 'inst': v = eng.classattr(o.info['cls'], a, st)
            else: v = eng.symattr(o, a, st, None)
          if v is None: continue
          n[1] += 1
          for x in v.objs:
            w = None
            if x.kind == 'sym' and not x.info['path'].startswith('new:'): w = 'shares %s' % x.info['path']
            elif x in shared_base: w = 'shares %s' % shared_base[x]
            elif x.kind == 'dict':
              if x in owner and owner[x][0] is not o and o.kind == 'inst' == owner[x][0].kind and owner[x][0].info['node'] is not o.info['node']: w = 'shares the %s of another %s it makes' % (owner[x][1], owner[x][2])
              owner.setdefault(x, (o, a, cn))
            if w: hits.setdefault(('shares', a, w), ('result of %s' % root.name, '%s made by the operation' % cn))
    return s, n, list(hits.items())
  done = stores = fields = 0
  for i, (s, n, hits) in R.parallel(go, range(len(roots))):
    root = roots[i]; done += s == 'done'; stores += n[0]; fields += n[1]
    for (k, a, w), (loc, how) in hits:
      if k == 'shares' and root.name in STAGES: continue
      if k == 'writes': rep.add('writes-class-metadata', '%s|%s' % (a, w), '%s writes into %s, %s' % (a, w, how), loc)
      else: rep.add('shared-metadata', '%s|%s|%s' % (root.name, a, w), '%s returns an object whose %s %s (%s)' % (root.name, a, w, how), loc)
  rep.floor('operations_analysed', len(roots), 330)
  rep.floor('operations_completed', done, 300)
  rep.floor('metadata_dictionaries_examined', fields, 800)
  rep.coverage['dictionary_stores_examined'] = stores
  rep.explanation = 'Ownership analysis of atts, plotatts, auxarrays and auxatts of every object each public operation makes and returns.'
