"""C23: one selector per axis is applied axis by axis.

Subscripts of arrays are watched while every public operation and every reader is interpreted:
 - a *list* holding slices (or Ellipsis) is not one selector per axis to numpy, it is an error;
 - two or more arrays of indices in one subscript pick points, not the crossing of the selections."""
import ast
from .. import runner as R, reading, probe
from ..engine import where, qualname, AV
from ..report import Broken

SRC = '''
def pair(x, I, J, how, k):
  from pygeode.axis import Lat, Lon, NamedAxis, Pres, Height
  from pygeode.view import View
  from pygeode.var import Var
  axes = [Lat([1., 2., 3., 4., 5.], name='lat'), Lon([1., 2., 3., 4., 5.], name='lon'), NamedAxis([1., 2., 3.], name='rec'), Pres([1., 2., 3.], name='pres'), Height([1., 2., 3.], name='z')][:k]
  v = Var(tuple(axes), values=x, name='v')
  sel = ([I, J, I, J, I])[:k]
  w = View(v.axes, force_integer_indices=sel, force_slices=sel)
  return w.get(v)
def pair2(x, I, J, how): return pair(x, I, J, how, 2)
def pair3(x, I, J, how): return pair(x, I, J, how, 3)
def pair4(x, I, J, how): return pair(x, I, J, how, 4)
def pair5(x, I, J, how): return pair(x, I, J, how, 5)
def full(x, I, J, how):
  from pygeode.axis import Lat, Lon, NamedAxis
  from pygeode.view import View
  from pygeode.var import Var
  from pygeode.tools import need_full_axes
  la = Lat([1., 2., 3., 4., 5.], name='lat'); lo = Lon([1., 2., 3., 4., 5.], name='lon'); n = NamedAxis([1., 2., 3.], name='rec')
  class Whole(Var):
    def getview(self, view, pbar): return x
  Whole.getview = need_full_axes(Lon)(Whole.getview)
  v = Whole((la, lo, n), dtype=x.dtype, name='v')
  w = View(v.axes, force_integer_indices=[I, J, slice(0, 3)], force_slices=[I, J, slice(None)])
  return v.getview(w, how)
'''

def isarray(eng, v):
  """Some of the possible values is an array (and none a mapping, a package object or a library handle)."""
  ok = False
  for o in v.objs:
    if o.kind == 'arr' or (o.kind == 'sym' and o.info['type'] == 'arr'): ok = True
    elif o.kind in ('unk', 'scalar', 'const', 'absent', 'bmeth'): pass
    else: return False
  return ok
def slicelike(o):
  return o.kind == 'slice' or (o.kind == 'sym' and o.info['type'] == 'slice') or (o.kind == 'const' and o.info['value'] is Ellipsis)
def picked(eng, v, st, shaped):
  """An index array selected along an axis, in the shape it came in (not reshaped to broadcast)."""
  if not {'I', 'J'} & set(eng.labs(v, st)): return False
  return any((o.kind == 'arr' and o not in shaped) or (o.kind == 'list') or (o.kind == 'sym' and o.info['path'] in ('I', 'J')) for o in v.objs)
def whole(o):
  """All selectors of a region at once."""
  return o.kind == 'sym' and o.info['path'] in ('view.slices', 'view.integer_indices')

def watch(eng, hits, n):
  shaped = set()
  def lis(eng, kind, node, d):
    if kind == 'method' and d['name'] in ('reshape', 'transpose'): shaped.update(d['recv'].objs if isinstance(d['recv'], AV) else [d['recv']])
    if kind == 'extcall' and d['name'] in ('numpy.reshape', 'numpy.expand_dims') and d['args']: shaped.update(d['args'][0].objs)
    if kind == 'getitem': base = d['base']
    elif kind == 'mutate' and d.get('key') is not None: base = eng.av(d['obj'])
    else: return
    if not isarray(eng, base): return
    st = d['st']; key = d['key']
    n[0] += 1
    at = '%s in %s' % (where(node), qualname(node))
    for o in key.objs:
      if o.kind == 'list':
        q = eng.seq(o, st)
        el = [x for v in (q if q is not None else [eng.elem(eng.av(o), st)]) for x in v.objs]
        if any(slicelike(x) for x in el): hits.setdefault(('list-index', qualname(node), ''), (at, eng.chain()))
      elif o.kind == 'tuple':
        q = eng.seq(o, st)
        if q is not None:
          if sum(picked(eng, v, st, shaped) for v in q) > 1: hits.setdefault(('pointwise', qualname(node), ''), (at, eng.chain()))
        else:
          e = eng.elem(eng.av(o), st)
          if any(whole(x) for x in e.objs): hits.setdefault(('pointwise', qualname(node), ''), (at, eng.chain()))
          t = e.objs and all(x.kind == 'sym' and ('.integer_indices' in x.info['path']) for x in e.objs)
          if t: hits.setdefault(('pointwise', qualname(node), ''), (at, eng.chain()))
      elif whole(o): hits.setdefault(('pointwise', qualname(node), o.info['path'].split('.')[-1]), (at, eng.chain()))
  return lis
TEXT = {'list-index': 'a list holding slices is used as the index of an array (an error: one selector per axis must be a tuple)',
        'pointwise': 'selections along several axes are used together in one subscript: arrays of indices then pick points instead of being applied axis by axis'}

def run(rep):
  eng = R.engine()
  targets = reading.targets(eng); roots = R.roots(eng)
  items = [('r', i) for i in range(len(targets))] + [('o', i) for i in range(len(roots))] + [('p', f) for f in ('pair2', 'pair3', 'pair4', 'pair5', 'full')]
  def go(it):
    k, i = it; hits = {}; n = [0]; how = None
    lis = watch(eng, hits, n)
    if k == 'r':
      c, m, fo = targets[i]; heavy = c.info['qual'].startswith(R.HEAVY)
      eng.listeners = []
      s, st, h = reading.make(eng, c, heavy); st = st.copy()
      eng.listeners = [lis]
      r, st, how = reading.read(eng, c, m, fo, s, st, heavy)
    elif k == 'o':
      eng.listeners = [lis]; r, st, how = R.run_root(eng, roots[i])
    else:
      op = {'pygeode.axis.Axis._readaxisconfig': lambda *a: eng.NONE}
      # the selections are irregular: they stay arrays
      if i != 'full': op['pygeode.view.simplify'] = lambda eng, st, o, args, kw, node: args[0] if args and isinstance(args[0], AV) else None
      p = probe.Probe(eng, SRC, opaque=op)
      r, st, how = p.call(i, [eng.sym('x', 'arr'), eng.sym('I', 'list:int'), eng.sym('J', 'list:int'), eng.sym('how', 'any')], {}, listeners=[lis])
    if i == 'full': hits = {k: v for k, v in hits.items() if k[0] == 'list-index'}     # regions within regions are regular there
    return list(hits.items()), n[0], how
  tot = 0; done = 0; bad = []
  for it, (hits, n, how) in R.parallel(go, items):
    tot += n; done += how == 'done'
    if it[0] == 'p': rep.coverage['probe_' + it[1]] = '%s, %d subscripts' % (how, n)
    for (rule, qual, t), (at, chain) in hits:
      rep.add(rule, '%s|%s' % (qual, t), '%s: %s' % (TEXT[rule], ' > '.join(str(c) for c in chain[-3:])), at)
  rep.floor('operations_and_readers', len(items), 450)
  rep.floor('operations_completed', done, 400)
  rep.floor('array_subscripts', tot, 2000)
  rep.explanation = 'Every subscript of an array on a path of a public operation or reader is examined.'
