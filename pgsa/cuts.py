"""Summaries standing for package functions that are analysed as roots of their own.

Each is a function whose effect on its caller is known by its contract (and checked when the function
itself is the root): reading data, comparing axes, mapping one axis or region onto another, formatting."""
from .engine import AV, join, Star

def _av(a): return a.av if isinstance(a, Star) else a

def _scalar(eng, st, o, args, kw, node): return eng.scalar(eng.arglabs(args, kw, st))
def _unknown(eng, st, o, args, kw, node): return eng.unknown(eng.arglabs(args, kw, st))

def view_get(eng, st, o, args, kw, node):
  pa = [_av(a) for a in args]
  var = pa[1] if len(pa) > 1 else kw.get('var')
  if var is None: return None
  eng.event('data_read', node, base=var, how='View.get', st=st, view=pa[0], pbar=pa[2] if len(pa) > 2 else kw.get('pbar'))
  return eng.mkarr(node, var.labs | frozenset(('op:read',)), st, tag='viewget', term=eng.mkterm('read', eng.term(var, st), eng.term(pa[0], st)))
def var_get(eng, st, o, args, kw, node):
  me = _av(args[0])
  eng.event('data_read', node, base=me, how='Var.get', st=st, view=None, pbar=kw.get('pbar'))
  return eng.mkarr(node, me.labs | frozenset(('op:read',)), st, tag='varget', term=eng.mkterm('read', eng.term(me, st), ('c', 'NoneType', None)))
def var_load(eng, st, o, args, kw, node):
  me = _av(args[0])
  eng.event('data_read', node, base=me, how='Var.load', st=st, view=None, pbar=kw.get('pbar') or (_av(args[1]) if len(args) > 1 else None))
  if all(x.kind == 'inst' for x in me.objs): return me
  return me
def axis_map(eng, st, o, args, kw, node):
  l = eng.arglabs(args, kw, st)
  r = eng.mkarr(node, l, st, tag='mapto')
  return AV(r.objs | eng.NONE.objs, l)
def view_new(eng, st, o, args, kw, node):
  """A view derived from another one."""
  me = _av(args[0])
  l = eng.arglabs(args, kw, st)
  c = eng.find_class_any('pygeode.view.View')
  x = eng.sym('view<%s>' % _origin(me), 'View')
  return AV(x.objs, l)
def view_simplify(eng, st, o, args, kw, node):
  """A slice if the indices are regular, else the indices as they are."""
  a = _av(args[0]) if args else kw.get('ind')
  if a is None: return None
  l = eng.arglabs(args, kw, st)
  s = eng.alloc('slice', node, st, tag='simplify')
  eng.setf(st, s, 'seq', (eng.scalar(l), eng.scalar(l), eng.scalar(l)))
  return AV(a.objs | {s}, l)
def view_expand(eng, st, o, args, kw, node): return eng.mkarr(node, eng.arglabs(args, kw, st), st, tag='expand')
def _origin(v):
  ps = sorted(o.info['path'] for o in v.objs if o.kind == 'sym')
  if ps: return ps[0][:60]
  return 'new'

CUTS = {
  'pygeode.view.View.get': view_get,
  'pygeode.var.Var.get': var_get,
  'pygeode.var.Var.load': var_load,
  'pygeode.axis.Axis.__eq__': _scalar, 'pygeode.axis.NamedAxis.__eq__': _scalar, 'pygeode.timeaxis.Time.__eq__': _scalar,
  'pygeode.axis.Axis.__ne__': _scalar,
  'pygeode.axis.is_equivalent': None,
  'pygeode.axis.Axis.map_to': axis_map, 'pygeode.axis.NamedAxis.map_to': axis_map, 'pygeode.timeaxis.Time.map_to': axis_map, 'pygeode.timeaxis.CalendarTime.map_to': axis_map,
  'pygeode.tools.can_map': _scalar, 'pygeode.tools.map_to': axis_map,
  'pygeode.axis.Axis.isparentof': _scalar, 'pygeode.axis.Axis.alleq': _scalar,
  'pygeode.axis.Axis.__str__': _scalar, 'pygeode.axis.Axis.formatvalue': _scalar, 'pygeode.var.Var.formatvalue': _scalar, 'pygeode.timeaxis.Time.formatvalue': _scalar, 'pygeode.timeaxis.CalendarTime.formatvalue': _scalar,
  'pygeode.axis.Axis.__repr__': _scalar, 'pygeode.var.Var.__str__': _scalar, 'pygeode.var.Var.__repr__': _scalar,
  'pygeode.dataset.Dataset.__str__': _scalar, 'pygeode.dataset.Dataset.__repr__': _scalar, 'pygeode.view.View.__str__': _scalar, 'pygeode.view.View.__repr__': _scalar,
  'pygeode.view.View.map_to': view_new, 'pygeode.view.View.clip': view_new, 'pygeode.view.View.unslice': view_new,
  'pygeode.view.View.remove': view_new, 'pygeode.view.View.only_slice': view_new, 'pygeode.view.View.modify_slice': view_new, 'pygeode.view.View.replace_axis': view_new,
  'pygeode.view.simplify': view_simplify, 'pygeode.view.expand': view_expand, 'pygeode.view.contiguate': _unknown,
  'pygeode.tools.whichaxis': _scalar,
}
del CUTS['pygeode.axis.is_equivalent']

def install(eng, keep=()):
  eng.opaque = {k: v for k, v in CUTS.items() if k not in keep}

def _new(t):
  def h(eng, st, o, args, kw, node):
    l = eng.arglabs(args, kw, st)
    if t == 'scalar': return eng.scalar(l)
    if t == 'none': return eng.NONE
    if t == 'unk': return eng.unknown(l)
    if t == 'arr': return eng.mkarr(node, l, st, tag='summary')
    return AV(eng.sym('new:%s' % o.info['name'], t).objs, l)
  return h

# Second level: constructors and transformations used by the file formats and the matrix methods.
CUTS2 = {
  'pygeode.axis.Axis._readaxisconfig': _new('none'), 'pygeode.timeaxis.CalendarTime._readaxisconfig': _new('none'),
  'pygeode.timeaxis.CalendarTime._get_dates': _new('unk'), 'pygeode.timeaxis.CalendarTime.str_as_val': _new('scalar'),
  'pygeode.timeaxis.CalendarTime.str_as_date': _new('unk'), 'pygeode.timeaxis.CalendarTime.date_as_val': _new('arr'), 'pygeode.timeaxis.CalendarTime.val_as_date': _new('unk'),
  'pygeode.axis.Axis.rename': _new('Axis'), 'pygeode.axis.Axis.class_has_alias': _new('scalar'), 'pygeode.axis.Axis.has_alias': _new('scalar'),
  'pygeode.axis.NonCoordinateAxis.__eq__': _new('scalar'), 'pygeode.axis.Hybrid.__eq__': _new('scalar'),
  'pygeode.timeticker.TickGenerator.__init__': _new('none'), 'pygeode.var.Var.whichaxis': _new('scalar'), 'pygeode.var.Var.hasaxis': _new('scalar'), 'pygeode.var.Var.getaxis': _new('Axis'),
  'pygeode.axis.Axis._getitem_asvar': _new('Axis'), 'pygeode.axis.Axis.get_slice': _new('unk'),
  'pygeode.var.SL.__init__': _new('none'), 'pygeode.var.SL.__getitem__': _new('Var'), 'pygeode.var.Var._getitem_asvar': _new('Var'), 'pygeode.var.Var.__call__': _new('Var'),
  'pygeode.var.Var.getweights': _new('Var'), 'pygeode.tools.combine_axes': _new('unk'), 'pygeode.dataset.axis_name_clumping': _new('none'),
}
VARFUNCS = ('pygeode.varoperations.', 'pygeode.ufunc.', 'pygeode.reduce.', 'pygeode.climat.', 'pygeode.timeutils.', 'pygeode.smooth.', 'pygeode.deriv.', 'pygeode.intgr.', 'pygeode.interp.')
def install2(eng, keep=()):
  """Both levels; every public function of the variable modules is summarised too."""
  from . import ops
  c = dict(CUTS); c.update(CUTS2)
  for q, fo in ops.public_functions(eng):
    if q.startswith(VARFUNCS) and not fo.info['name'].startswith(('_', 'wrap', 'as')): c[fo.info['qual']] = _new('Var')
  eng.opaque = {k: v for k, v in c.items() if k not in keep}

def tables(eng):
  eng.cutsets = {}
  install(eng); eng.cutsets[1] = eng.opaque
  install2(eng); eng.cutsets[2] = eng.opaque
  eng.opaque = {}
