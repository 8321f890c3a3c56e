"""C25: reading a region reads the inputs only through that region.

Every operation that describes a variable is followed on a lazy source; its result is then read through a view whose
indices along each axis are arbitrary and named.  At the source, the view that arrives must, along every axis the operation
does not itself work on, be computed from the indices asked for along the corresponding axis of the result."""
import re
from .. import probe, runner as R
from ..engine import AV, where, qualname
from . import c04, c05

RD = '''
def rd(v, I):
  from pygeode.view import View
  return View(v.axes, force_integer_indices=I, force_slices=I).get(v)
'''
# operations that may read more along an axis they work on: the axes, by what the operation is called
OWN = [(r"(?<![\w.])v?\w*\.?(?:min|max|mean|sum|stdev|variance|argmin|argmax|nan\w+|smooth|fft_smooth|deriv|diff|integrate|cumsum|lag)\((?P<args>[^)]*)", None),
       (r"climatology|clim\w+\(|(?:daily|diurnal|monthly|seasonal|yearly)\w+\(|climtrend|split|noleap|ens\(|join|concat", 'time'), (r"interp", 'pres'), (r"comp\(|flat\(", 'time pres'), (r"n?a?n?m_(?P<args>lat|lon|pres|time)", None)]
AXES = ('time', 'pres', 'lat', 'lon')
EXTRA = [('concatenate along a given axis', 'catted(v)'), ('transpose by number', 'v.transpose(0, 2, 3, 1)'), ('minimum by number', 'v.min(2)'), ('transpose of a sum', "(v + v).transpose('lat', 'lon')"), ('sum of a transpose', "v + v.transpose('lat', 'lon')"), ('sum of a rename', "(v.rename_axes(lat='y') * 2).rename_axes(y='lat')"),
 ('mean of a smoothed field', "v.smooth('time', 3).mean('lat')"), ('anomaly', "v - v.mean('time')"), ('transpose of a mean', "v.mean('lat').transpose('lon')"), ('interpolate a sum', "(v + 1).interpolate('pres', newpres())"), ('mean of means', "v.mean('time').mean('lon')"), ('differences of a selection', "v(i_lat=(0, 3)).diff('time')"), ('derivative of a mean', "v.mean('lon').deriv('lat')")]
EXTRAHELP = '''
def catted(v):
  from pygeode.concat import concat
  return concat(v(i_time=(0, 3)), v(i_time=(3, 6)), iaxis='time')
'''
VIEWS = {'pygeode.view.View.' + n for n in 'get map_to clip unslice remove only_slice modify_slice replace_axis'.split()}
EQS = ['pygeode.axis.Axis.__eq__', 'pygeode.axis.NamedAxis.__eq__', 'pygeode.timeaxis.Time.__eq__', 'pygeode.axis.Hybrid.__eq__', 'pygeode.axis.NonCoordinateAxis.__eq__', 'pygeode.axis.is_equivalent']
MAPS = ['pygeode.axis.Axis.map_to', 'pygeode.axis.NamedAxis.map_to', 'pygeode.timeaxis.Time.map_to', 'pygeode.timeaxis.CalendarTime.map_to', 'pygeode.axis.NonCoordinateAxis.map_to']

def axname(eng, o, st):
  x = eng.getf(st, o, 'name')
  if x is None and o.info.get('cls') is not None: x = eng.classattr(o.info['cls'], 'name', st)
  return eng.constval(x, None) if x is not None else None

def axnames(eng, v, st):
  """The one name an axis has, or None."""
  ns = {axname(eng, o, st) for o in v.objs if o.kind == 'inst'}
  return ns.pop() if len(ns) == 1 and all(o.kind == 'inst' for o in v.objs) else None

def related(eng, a, b, st):
  """True: the same axis; False: axes of different kinds; None: may or may not select from one another."""
  if len(a.objs) == 1 and a.objs == b.objs: return True
  for x in a.objs:
    for y in b.objs:
      if x.kind != 'inst' or y.kind != 'inst': return None
      cx, cy = x.info['cls'], y.info['cls']
      if (eng.issub(cx, cy) or eng.issub(cy, cx)) and axname(eng, x, st) == axname(eng, y, st): return None
  return False

def handlers(eng):
  op = {k: v for k, v in eng.cutsets[1].items() if k not in c04.KEEP and k not in VIEWS and k != 'pygeode.var.Var.get'}
  op['pygeode.axis.Axis._readaxisconfig'] = lambda *a: eng.NONE
  def eq(eng, st, o, args, kw, node):
    r = related(eng, args[0], args[1], st)
    if r is None and not eng.axeseither: r = False        # two axes of one kind: one is a selection from the other
    return eng.mk_const(r) if r is not None else eng.scalar(frozenset())
  def mapto(eng, st, o, args, kw, node):
    if related(eng, args[0], args[1], st) is False: return eng.NONE
    return eng.mkarr(node, frozenset(l for l in eng.deep_labs(args[1], st)), st, tag='mapto')
  def get(eng, st, o, args, kw, node):
    me = args[0]; var = args[1] if len(args) > 1 else kw.get('var')
    if var is None: return None
    strict = kw.get('strict', args[3] if len(args) > 3 else eng.mk_const(True))
    nv = eng.call(eng.getattr(me, 'map_to', st, node), [eng.getattr(var, 'axes', st, node)], {'strict': strict}, node, st)
    eng.event('data_read', node, base=var, how='View.get', st=st, view=nv, pbar=None)
    for x in sorted(var.objs, key=lambda o: o.n):
      if x.kind != 'inst' or eng.getf(st, x, 'values') is not None: continue
      g = eng.getattr(eng.av(x), 'getview', st, node, quiet=True)
      if g is not None and g.objs and not eng.issub(x.info['cls'], eng.find_class_any('pygeode.axis.Axis')): eng.call(g, [nv, eng.sym('pbar', 'cls:pygeode.progress.PBar')], {}, node, st)
    return eng.mkarr(node, frozenset(), st, tag='vget')
  def loop_mem(eng, st, o, args, kw, node):
    """Views of parts of the region: along each axis, some of its indices."""
    me = args[0]
    axes = eng.getattr(me, 'axes', st, node); ind = eng.getattr(me, 'integer_indices', st, node)
    q = eng.seq(next(iter(ind.objs)), st) if len(ind.objs) == 1 else None
    if q is None: return None
    part = [eng.mkarr(node, frozenset(eng.deep_labs(x, st)), st, tag=('part', i)) for i, x in enumerate(q)]
    c = eng.find_class_any('pygeode.view.View')
    v = eng.call(eng.av(c), [axes, eng.mklist('list', node, part, st)], {}, node, st)
    return eng.mkopen('list', node, AV(v.objs), st)
  def canmap(eng, st, o, args, kw, node):
    r = related(eng, args[0], args[1], st)
    return eng.NONE if r is False else args[0] if r else AV(args[0].objs | args[1].objs)
  op['pygeode.tools.can_map'] = canmap
  PART = 'pygeode.axis.Axis._getitem_asvar'
  def part(eng, st, o, args, kw, node):
    """A selection from an axis is another axis."""
    h = eng.opaque.pop(PART)
    try: r = eng.call_func(o, args, kw, node, st)
    finally: eng.opaque[PART] = h
    if r is None or not r.objs - args[0].objs: return r
    return AV(r.objs - args[0].objs, r.labs)
  op[PART] = part
  for h in (eq, mapto, canmap, get, loop_mem): h.quiet = True
  for q in EQS: op[q] = eq
  for q in MAPS: op[q] = mapto
  op['pygeode.view.View.get'] = get
  op['pygeode.view.View.loop_mem'] = loop_mem
  return op

def own(expr):
  """The axes of the source along which the operation may read more than was asked for."""
  out = set()
  for pat, ax in OWN:
    for m in re.finditer(pat, expr):
      if ax is not None: out |= set(ax.split())
      elif m.group('args') is not None:
        got = [a for a in AXES if a in m.group('args')]
        out |= set(got if got else AXES)
  return out

def run(rep):
  eng = R.engine()
  oplist = [(n, e) for n, e, ch in c04.OPS if n not in c05.READS] + c05.MORE + EXTRA
  src = c04.SRC + c04.HELP + c05.HELP + EXTRAHELP + RD + ''.join('def op%d(v): return %s\n' % (i, e) for i, (n, e) in enumerate(oplist))
  p = probe.Probe(eng, src, opaque=handlers(eng))
  eng.exactnp = True; eng.dataonly = True
  var = eng.find_class_any('pygeode.var.Var'); axis = eng.find_class_any('pygeode.axis.Axis'); dset = eng.find_class_any('pygeode.dataset.Dataset')
  def source(eng, o, st): return o.kind == 'inst' and o.info['cls'].info['qual'].split('.')[-1] == 'Source' and eng.getf(st, o, 'values') is None
  def go(i):
    what, expr = oplist[i]; out = []; n = 0; bad = {}
    v, st0, how = p.call('lazy', [eng.sym('x', 'arr'), eng.NONE])
    if v is None: return 'source ' + how, 0, []
    v = AV(frozenset(o for o in v.objs if o.kind == 'inst'), v.labs)
    for eng.axeseither in (False, True):
      r, st, how = p.call('op%d' % i, [v], st=st0.copy(), salt=1)
      if r is not None: break
    if r is None: return how, 0, []
    free = [a for a in AXES if a not in own(expr)]
    res = []
    for o in sorted(r.objs, key=lambda o: o.n):
      if o.kind != 'inst': continue
      if eng.issub(o.info['cls'], dset):
        vs = eng.getf(st, o, 'vars')
        for q in (vs.objs if vs is not None else ()):
          for x in eng.seq(q, st) or (): res += sorted(x.objs, key=lambda o: o.n)
      elif eng.issub(o.info['cls'], var) and not eng.issub(o.info['cls'], axis): res.append(o)
    state = 'no variable'
    for o in res:
      if o.kind != 'inst' or o in v.objs: continue
      x = eng.getf(st, o, 'axes')
      q = eng.seq(next(iter(x.objs)), st) if x is not None and len(x.objs) == 1 else None
      if not q: state = 'axes not known'; continue
      names = [axnames(eng, a, st) for a in q]
      I = eng.mklist('list', None, [eng.sym('I%d' % k, 'arr') for k in range(len(names))], st)
      reads = []
      def lis(eng, kind, node, d):
        if kind == 'data_read' and d['base'].objs and all(source(eng, b, d['st']) for b in d['base'].objs):
          vw = d.get('view'); at = (qualname(node), where(node), d['how'])
          if vw is None:
            reads.append((at, None)); return
          for w in vw.objs:
            for f in ('slices', 'integer_indices'):
              sl = eng.getf(d['st'], w, f)
              for y in (sl.objs if sl is not None else ()):
                qs = eng.seq(y, d['st'])
                if qs is not None and len(qs) == len(AXES): reads.append((at, [{l for l in eng.deep_labs(z, d['st']) if l.startswith('I') and l[1:].isdigit()} for z in qs]))
      y, s2, how = p.call('rd', [eng.av(o), I], st=st, salt=2, listeners=[lis])
      if not reads: state = 'not read (%s)' % how; continue
      state = 'done'
      for (qual, at, h), labs in reads:
        for j, a in enumerate(AXES):
          if a not in free: continue
          n += 1
          k = names.index(a) if a in names else None
          if labs is None: lost = True
          elif k is not None: lost = 'I%d' % k not in labs[j]
          else: lost = not labs[j] and len(names) >= len(AXES)
          if lost: bad.setdefault((qual, h, a), at)
    return state, n, sorted(bad.items())
  n = ops = 0; why = {}; seen = {}
  for i, (state, k, bad) in R.parallel(go, list(range(len(oplist)))):
    what, expr = oplist[i]; n += k
    if state == 'done': ops += 1
    else: why[what] = state
    for (qual, h, a), at in bad: seen.setdefault((qual, a), []).append((what, expr, at, h))
  for (qual, a), l in sorted(seen.items()):
    what, expr, at, h = l[0]
    rep.add('whole', '%s|%s' % (qual, a), 'reading part of %s (%s)%s along %r reads its input without regard to the part asked for: %s in %s' % (what, expr, ' and of %d other operations' % (len(l) - 1) if len(l) > 1 else '', a, h, qual), at)
  rep.obligations = n
  rep.coverage['not_decided'] = why
  rep.floor('operations', ops, 120)
  rep.explanation = 'Every operation that describes a variable, read through a view with a named index array along each axis; the view that arrives at the source compared with it, axis by axis.'
