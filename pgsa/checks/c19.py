"""C19: every accepted option has an effect.

Every public operation is followed with all its arguments given, and with one optional argument given at a time.  The
names of the arguments are carried along as labels of every value computed from them (or stored under a test on them).
An argument whose label is found neither in what the result shows - its values when read, its axes, attributes, name,
type - nor in any object that outlives the call, nor in what is written or passed to the outside, is ignored."""
from .. import ops, probe, runner as R, reading
from ..engine import where, qualname, AV, Star, Budget
from . import c04, c05, c18

SHOWN = ('axes', 'atts', 'plotatts', 'name', 'dtype', 'units', 'values', 'shape', 'plotfmt', 'formatstr')

# needs a Python 2 package and an external program
SKIP = ('pygeode.formats.mpeg.',)
# what a caller passes, where the argument's usual kind leaves at once
TYPES = {'pygeode.dataset.asdataset': {'vars': 'dataset'}, 'pygeode.view.expand': {'ind': 'slice'}, 'pygeode.view.contiguate': {'ind': 'any'}}
# arguments that decide whether the operation goes ahead, or choose between constant outcomes (confirmed by reading)
TESTED = {('pygeode.' + f, n) for f, n in (('axis.Axis.get_slice', 'ignore_mismatch'), ('axis.is_equivalent', 'check_name'), ('formats.cfmeta.decode_cf', 'ignore'), ('formats.netcdf4.save', 'unlimited'), ('timeaxis.modeltime360range', 'inc'), ('timeaxis.modeltime365range', 'inc'), ('timeaxis.standardtimerange', 'inc'),
  ('var.Var.__call__', 'ignore_mismatch'), ('varoperations.rename_axes', 'ignore_mismatch'), ('varoperations.replace_axes', 'ignore_mismatch'), ('view.View.map_to', 'strict'), ('view.View.replace_axis', 'iaxis'), ('view.indices_to_slices', 'ind'))}
# documented as unused: part of a signature shared with the classes that use them
UNUSED = {('pygeode.%s' % m, n) for ms, ns in (
  ('axis.Axis.str_as_val axis.NonCoordinateAxis.str_as_val timeaxis.CalendarTime.str_as_date timeaxis.CalendarTime.str_as_val', ('key',)),
  ('axis.Lat.formatvalue axis.Lon.formatvalue axis.Pres.formatvalue', ('unitstr',)),
  ('axis.NonCoordinateAxis.formatvalue', ('fmt', 'units', 'unitstr')),
  ('timeaxis.CalendarTime.formatvalue timeaxis.makeSeasonalAxis.SeasonalTime.formatvalue', ('units', 'unitstr')),
  ('timeaxis.Yearless.days_in_month', ('yr', 'mn')),
  ('formats.multifile.multifile', ('opener',)),      # used by the function it returns
  ) for m in ms.split() for n in ns}

# arguments that govern the values obtained, not only what is recorded about them (from the operations' documentation)
VALUES = {('pygeode.' + f, n) for f, ns in (
  ('deriv.deriv', 'daxis dx df'), ('diff.diff', 'axis n'), ('eof.EOF_iter', 'num iaxis weight'), ('eof.EOF_cov', 'num iaxis weight'), ('eof.EOF', 'num iaxis weight'), ('eof.EOF_guess', 'num iaxis'), ('eof.EOF_svd', 'num iaxis'),
  ('svd.SVD', 'num iaxis weight1 weight2 matrix'), ('interp.interpolate', 'inaxis outaxis inx outx interp_type d_below d_above'), ('intgr.integrate', 'iaxis dx v0 order type'), ('intgr.cumsum', 'axis v0 order'),
  ('reduce.min', 'axes'), ('reduce.nanmin', 'axes'), ('reduce.max', 'axes'), ('reduce.nanmax', 'axes'), ('reduce.argmax', 'axis'), ('reduce.argmin', 'axis'), ('reduce.sum', 'axes kwargs'), ('reduce.nansum', 'axes kwargs'), ('reduce.mean', 'axes kwargs'), ('reduce.nanmean', 'axes kwargs'),
  ('reduce.stdev', 'axes'), ('reduce.nanstdev', 'axes'), ('reduce.variance', 'axes'), ('reduce.nanvariance', 'axes'), ('smooth.smooth', 'saxis kernel'), ('fft_smooth.fft_smooth', 'saxis maxharm'),
  ('stats.correlate', 'axes'), ('stats.regress', 'axes N_fac'), ('stats.multiple_regress', 'axes N_fac'), ('stats.difference', 'axes alpha Nx_fac Ny_fac'), ('stats.paired_difference', 'axes alpha N_fac'), ('stats.isnonzero', 'axes alpha N_fac'),
  ('timeutils.lag', 'iaxis lags'), ('timeutils.jointimeaxes', 'yaxis daxis'), ('varoperations.fill', 'fill'), ('varoperations.unfill', 'fill'), ('varoperations.as_type', 'dtype'), ('composite.composite', 'kwargs'), ('composite.flatten', 'inner'),
  ('formats.netcdf.open', 'value_override dimtypes'), ('formats.netcdf4.open', 'value_override dimtypes'), ('formats.multifile.openall', 'files opener kwargs'), ('formats.multifile.open_multi', 'files opener pattern file2date kwargs')) for n in ns.split()}

# options given through keywords, or through the wrappers of a dataset: (what, expression, kind of `q`, must reach the values)

OPTS = [
 ('select a range', 'v(lat=(q, 30))', 'num', 0), ('select by value', 'v(pres=q)', 'num', 0), ('select by index', 'v(i_pres=q)', 'int', 0), ('select listed values', 'v(l_pres=[q, 100.])', 'num', 0), ('select listed indices', 'v(li_pres=[0, q])', 'int', 0), ('select the complement', 'v(n_pres=(q, 1000))', 'num', 0), ('select with an average', 'v(m_lat=(q, 30))', 'num', 1), ('squeeze at a value', 'v.squeeze(pres=q)', 'num', 1),
 ('weights of a mean', "v.mean('lat', weights=q)", 'Var', 1), ('weights of a sum', "v.sum('lat', weights=q)", 'Var', 1), ('weights of a NaN-aware mean', "v.nanmean('lat', weights=q)", 'Var', 1), ('weights of a NaN-aware sum', "v.nansum('lat', weights=q)", 'Var', 1),
 ('kernel of a smoothing', "v.smooth('time', q)", 'int', 1), ('kernel given as numbers', "v.smooth('lat', [1., q, 1.])", 'num', 1), ('harmonics', "v.fft_smooth('lon', q)", 'int', 1),
 ('fill value', 'v.fill(q)', 'num', 1), ('unfill value', 'v.unfill(q)', 'num', 1), ('one filled value', 'v.fill({q: 1.})', 'num', 1), ('what one value is filled with', 'v.fill({0.: q})', 'num', 1),
 ('interpolation below', "v.interpolate('pres', newpres(), d_below=q)", 'num', 1), ('interpolation above', "v.interpolate('pres', newpres(), d_above=q)", 'num', 1), ('interpolation source', "v.interpolate('pres', newpres(), inx=q)", 'Var', 1), ('interpolation target', "v.interpolate('pres', newpres(), outx=q)", 'Var', 1), ('interpolation kind', "v.interpolate('pres', newpres(), interp_type=q)", 'str', 1), ('interpolation of nonmonotonic data', "v.interpolate('pres', newpres(), omit_nonmonotonic=q)", 'any', 1),
 ('lags', "v.lag('time', [0, q])", 'int', 1), ('coordinate of a derivative', "v.deriv('pres', dx=q)", 'Var', 1), ('start of an integral', "v.integrate('pres', v0=q)", 'num', 1), ('coordinate of an integral', "v.integrate('pres', dx=q)", 'Var', 1), ('start of a cumulative sum', "v.cumsum('lat', v0=q)", 'num', 1), ('step of a difference', "v.diff('time', n=q)", 'int', 1),
 ('the length of events', 'comp_(v, li_pres=[0, 1, 2], evlen=q)', 'int', 1), ('the offset of events', 'comp_(v, li_pres=[0, 1, 2], evlen=1, evoff=q)', 'int', 1), ('the events', 'comp_(v, li_pres=[0, q, 2], evlen=1)', 'int', 1),
 ('the bounds of clip', 'clip_(v, q, 1.)', 'num', 1), ('the upper bound of clip', 'clip_(v, 0., q)', 'num', 1), ('the power', 'v ** q', 'num', 1), ('the base', 'q ** v', 'num', 1), ('the other of arctan2', 'uf2("arctan2", v, q)', 'num', 1), ('the other of arctand2', 'uf2("arctand2", v, q)', 'num', 1), ('the other of minimum', 'uf2("minimum", v, q)', 'num', 1), ('the other of maximum', 'uf2("maximum", v, q)', 'num', 1), ('the first of arctan2', 'uf2("arctan2", q, v)', 'num', 1),
 ('number added', 'v + q', 'num', 1), ('number subtracted from', 'q - v', 'num', 1), ('number divided', 'q / v', 'num', 1), ('remainder', 'v % q', 'num', 1),
 ('argument of a map', 'map_(v, scaled, q)', 'num', 1), ('keyword of a map', 'map_(v, scaled, f=q)', 'num', 1), ('argument of a map over a dataset', 'inds(v).map(scaled, q).vars[0]', 'num', 1), ('keyword of a map over a dataset', 'inds(v).map(scaled, f=q).vars[0]', 'num', 1),
 ('range selected from a dataset', 'inds(v)(lat=(q, 30)).vars[0]', 'num', 0), ('weights of a mean of a dataset', "inds(v).mean('lat', weights=q).vars[0]", 'Var', 1), ('kernel of a smoothing of a dataset', "inds(v).smooth('time', q).vars[0]", 'int', 1), ('fill value of a dataset', 'inds(v).fill(q).vars[0]', 'num', 1), ('interpolation of a dataset', "inds(v).interpolate('pres', newpres(), d_below=q).vars[0]", 'num', 1), ('start of an integral of a dataset', "inds(v).integrate('pres', v0=q).vars[0]", 'num', 1), ('coordinate of a derivative of a dataset', "inds(v).deriv('pres', dx=q).vars[0]", 'Var', 1), ('harmonics of a dataset', "inds(v).fft_smooth('lon', q).vars[0]", 'int', 1),
 ('new name', 'v.rename(q)', 'str', 0), ('new name of an axis', 'v.rename_axes(lat=q)', 'str', 0), ('new name of a variable of a dataset', 'inds(v).rename_vars(temp=q)', 'str', 0), ('new name of an axis of a dataset', 'inds(v).rename_axes(lat=q)', 'str', 0), ('replacement axis', 'v.replace_axes(lat=q)', 'Axis', 0), ('replacement variable', 'inds(v).replace_vars(temp=q)', 'Var', 0), ('variable added', 'inds(v).add(q)', 'Var', 0), ('attributes of a dataset', 'ds_(v, q)', 'dict', 0), ('name of an ensemble', 'ens_(v, q)', 'any', 0),
]
OPTS += [('%s of the %s of %s' % (o, r, f), "st_(%r, %r, %s, axes=['lat'], %s=q)" % (f, r, a, o), 'num', 1) for f, rs, os, a in (
  ('isnonzero', 'p ci', 'N_fac', 'v'), ('isnonzero', 'ci', 'alpha', 'v'), ('paired_difference', 'df p ci', 'N_fac', 'v, other(v)'), ('paired_difference', 'ci', 'alpha', 'v, other(v)'),
  ('difference', 'df p ci', 'Nx_fac Ny_fac', 'v, other(v)'), ('difference', 'ci', 'alpha', 'v, other(v)'), ('regress', 'p sm se', 'N_fac', 'v, other(v)'), ('multiple_regress', 'p sb covb se', 'N_fac', '[other(v)], v')) for r in rs.split() for o in os.split()]
OPTHELP = '''
def st_(n, out, *args, **kwargs):
  import pygeode.stats as s
  return getattr(s, n)(*args, output=out, **kwargs).vardict[out]

def scaled(v, f): return v * f
def map_(v, *args, **kwargs):
  from pygeode.ufunc import map
  return map(v, *args, **kwargs)
def comp_(v, **kwargs):
  from pygeode.composite import composite
  return composite(v, **kwargs)
def clip_(v, a, b):
  from pygeode.ufunc import clip
  return clip(v, a, b)
def uf2(n, a, b):
  import pygeode.ufunc as u
  return getattr(u, n)(a, b)
def ds_(v, q):
  from pygeode.dataset import Dataset
  return Dataset([v], atts=q)
def ens_(v, q):
  from pygeode.ensemble import ensemble
  return ensemble(v, v, axis=q)
'''

def keywords(eng, kinds, rep):
  src = c04.SRC + c04.HELP + c05.HELP + OPTHELP + ''.join('def op%d(v, q): return %s\n' % (i, e) for i, (n, e, t, val) in enumerate(OPTS))
  op = {k: v for k, v in eng.cutsets[1].items() if k not in c04.KEEP}
  op['pygeode.axis.Axis._readaxisconfig'] = lambda *a: eng.NONE
  p = probe.Probe(eng, src, opaque=op)
  def go(i):
    what, expr, typ, val = OPTS[i]
    out = set(); vals = set(); how = 'done'
    for mk in ('inmem', 'lazy'):
      v, st0, how = p.call(mk, [eng.sym('x', 'arr'), eng.NONE])
      if v is None: return 'source ' + how, out, vals
      v = AV(frozenset(o for o in v.objs if o.kind == 'inst'), v.labs)
      q = {'num': lambda: eng.sym('q', 'scalar'), 'int': lambda: eng.sym('q', 'scalar')}.get(typ, lambda: eng.sym('q', typ))()
      r, st, how = p.call('op%d' % i, [v, q], st=st0, salt=1)
      if r is None: return how, out, vals
      reads = []
      s = shown(eng, r, st, kinds, reads, set(), data=vals)
      out |= s
      if any(o.kind in ('arr', 'scalar') for o in r.objs): vals |= eng.deep_labs(r, st)
      for o in reads[:4]:
        for m in reading.READERS:
          g = eng.classattr(o.info['cls'], m, st)
          fs = [f for f in (g.objs if g is not None else ()) if f.kind == 'func']
          for f in fs:
            x, s2, h = reading.read(eng, o.info['cls'], m, f, AV(frozenset((o,))), st.copy(), True)
            if h == 'budget': return 'budget', out, vals
            if x is not None: vals |= eng.deep_labs(x, s2)
          if fs: break
    return how, out, vals
  n = 0; why = {}
  for i, (how, out, vals) in R.parallel(go, list(range(len(OPTS)))):
    what, expr, typ, val = OPTS[i]
    if how != 'done': why[what] = how; continue
    n += 1
    has = lambda ls: any(l.lstrip('*') == 'q' or l.lstrip('*').startswith(('q.', 'q[')) for l in ls)
    if val and not has(vals): rep.add('keyword', what, '%s: the values of %s do not depend on q' % (what, expr))
    if not val and not has(out | vals): rep.add('keyword', what, '%s: nothing of %s depends on q' % (what, expr))
  rep.coverage['keywords_not_decided'] = why
  rep.floor('keyword_options', n, 30)

def shown(eng, v, st, kinds, reads, seen, depth=6, data=None):
  """Labels of what a user can see of a value; variables whose values are still to be read are added to `reads`."""
  out = set(v.labs)
  if depth == 0: return out
  for o in v.objs:
    if o in seen or o.kind in ('class', 'module', 'func', 'ext'): continue
    seen.add(o)
    if o.kind == 'bound': out |= shown(eng, o.info['me'], st, kinds, reads, seen, depth - 1, data); continue
    f = eng.fields(st, o)
    if o.kind == 'inst' and eng.issub(o.info['cls'], kinds[0]) and not eng.issub(o.info['cls'], kinds[1]):
      if o.info['cls'] is not kinds[0]: reads.append(o)
      f = {k: x for k, x in f.items() if k in SHOWN}
      if data is not None and isinstance(f.get('values'), AV): data |= eng.deep_labs(f['values'], st)
    for k, x in f.items():
      if isinstance(x, AV): out |= shown(eng, x, st, kinds, reads, seen, depth - 1, data)
      elif k == 'seq' and x:
        for y in x: out |= shown(eng, y, st, kinds, reads, seen, depth - 1, data)
  return out

def ways(eng, roots, st):
  items = []
  for i, r in enumerate(roots):
    fo, opt = c18.optional(eng, r, st)
    if fo is None: continue
    a = fo.info['node'].args
    names = [n for n, p, d in opt]
    extra = (['varargs'] if a.vararg else []) + (['kwargs'] if a.kwarg else [])
    items.append((i, tuple(names + extra)))
    if names or extra: items.append((i, ()))
    items += [(i, ('!' + n,)) for n, p, d in opt if isinstance(eng.constval(d, None), bool)]
    if len(names) + len(extra) > 1: items += [(i, (n,)) for n in names + extra]
  return items

PURE = ('builtins.', 'numpy.', 'math.', 'copy.', 'operator.', 'itertools.', 'functools.', 'collections.', 'inspect.', 'types.')
SPEAK = ('builtins.print', 'builtins.open', 'builtins.setattr', 'numpy.save', 'numpy.savetxt')

def outside(name): return name in SPEAK or not name.startswith(PURE)

def run(rep):
  eng = R.engine()
  roots = [r for r in R.roots(eng) if not r.name.startswith(SKIP)]
  kinds = (eng.find_class_any('pygeode.var.Var'), eng.find_class_any('pygeode.axis.Axis'))
  st0 = eng.new_state()
  items = ways(eng, roots, st0)
  def go(it):
    i, given = it; root = roots[i]
    st = eng.new_state()
    fo, opt = c18.optional(eng, root, st)
    L = {'effect': set(), 'test': set(), 'out': set(), 'cut': set(), 'passed': set()}
    def lab(v, st):
      if isinstance(v, Star): v = v.av
      return eng.deep_labs(v, st) if isinstance(v, AV) else set()
    mark = eng.nobj
    def old(o): return o is not None and (o.n <= mark or o.kind == 'sym')
    def on(eng, kind, node, d):
      if kind in ('branch', 'assert'): L['test'] |= eng.labs(d.get('test', d.get('value')), d['st'])
      elif kind == 'mutate':
        if old(d['obj']):
          L['effect'] |= lab(d.get('value'), d['st']) | lab(d.get('key'), d['st'])
          if d['obj'].kind == 'sym': L['effect'].add(d['obj'].info['path'])
      elif kind == 'method':
        if any(o.kind in ('unk', 'ext', 'sym') for o in d['recv'].objs):
          for x in [d['recv']] + list(d['args']): L['out'] |= lab(x, st)
      elif kind == 'setattr':
        if old(d['obj']): L['effect'] |= lab(d['value'], d['st'])
      elif kind == 'extcall':
        if outside(d['name']):
          L['out'] |= d['st'].ctl
          for x in list(d['args']) + list(d['kw'].values()): L['out'] |= lab(x, d['st'])
      elif kind == 'call':
        o = d['callee']
        f = next(iter(o.info['func'].objs), None) if o.kind == 'bound' and isinstance(o.info.get('func'), AV) else o.info.get('func', o) if o.kind == 'bound' else o
        for x in list(d['args']) + list(d['kw'].values()):
          if isinstance(x, Star) or x is d['kw'].get('**'): L['passed'] |= lab(x, d['st'])
        if f is not None and f.kind == 'func' and f.info['qual'] in eng.opaque or o.kind in ('sym', 'unk', 'scalar'):
          for x in list(d['args']) + list(d['kw'].values()): L['cut'] |= lab(x, d.get('st', st))
      elif kind == 'raise' and d['value'] is not None: L['test'] |= lab(d['value'], d['st'])
    eng.listeners = [on]
    if given and given[0].startswith('!'):
      n = given[0][1:]
      how, r = call(eng, root, fo, {n}, st, {n: eng.mk_const(not eng.constval([d for x, p, d in opt if x == n][0], None))})
      return how, {}
    how, r = call(eng, root, fo, set(given), st)
    vis = set(); reads = []; hows = []; vals = set()
    if r is not None: vis = shown(eng, r, st, kinds, reads, set(), data=vals)
    built = L
    L = {k: set() for k in L}
    for o in reads[:6]:
      for m in reading.READERS:
        g = eng.classattr(o.info['cls'], m, st)
        for f in (g.objs if g is not None else ()):
          if f.kind != 'func': continue
          x, s2, h = reading.read(eng, o.info['cls'], m, f, AV(frozenset((o,))), st.copy(), root.heavy)
          hows.append(h)
          if x is not None: vals |= eng.deep_labs(x, s2)
        if g is not None and any(f.kind == 'func' for f in g.objs): break
    eng.listeners = []
    if 'budget' in hows or 'raises' in hows: how = 'read ' + how
    a = fo.info['node'].args
    pars = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    def has(n, ls): return any(l.lstrip('*') == n or l.lstrip('*').startswith((n + '.', n + '[')) for l in ls)
    res = {}
    for n in pars: res[n] = [k for k, s in (('seen', vis), ('values', vals), ('read', set().union(*L.values())), ('effect', built['effect']), ('out', built['out']), ('cut', built['cut']), ('passed', built['passed']), ('test', built['test'])) if has(n, s)]
    return how, res
  reach = {}; ok = {}; flags = {}; plain = set(); stopped = set(); followed = 0
  for (i, given), (how, res) in R.parallel(go, items):
    followed += how == 'done'
    if given and given[0].startswith('!'): flags.setdefault((i, given[0][1:]), how); continue
    if given == (): plain.add((i, how))
    root = roots[i]
    if 'budget' in how: stopped.add(i)
    fo, opt = c18.optional(eng, root, st0)
    a = fo.info['node'].args
    req = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} - {n for n, p, d in opt}
    # a parameter counts in the calls that give it and return
    for n, k in res.items():
      reach.setdefault((i, n), set()).update(k)
      if how == 'done' and (n in req or n in given or a.vararg and n == a.vararg.arg and 'varargs' in given or a.kwarg and n == a.kwarg.arg and 'kwargs' in given): ok[(i, n)] = True
  rep.reach = {(roots[i].name, n): sorted(k) for (i, n), k in reach.items() if ok.get((i, n)) and i not in stopped}
  flips = 0
  for (i, n), how in sorted(flags.items()):
    if (i, 'done') not in plain or how == 'budget': continue
    flips += 1
    if how == 'raises': rep.add('fails', '%s|%s' % (roots[i].name, n), '%s accepts the option %s but fails whenever it is not left at its default' % (roots[i].name, n), where(c18.optional(eng, roots[i], st0)[0].info['node']))
  keywords(eng, kinds, rep)
  decided = 0; undecided = []
  for (i, n), k in sorted(reach.items()):
    root = roots[i]; fo, opt = c18.optional(eng, root, st0); a = fo.info['node'].args
    pos = [p.arg for p in a.posonlyargs + a.args]
    if root.kind in ('methodm', 'methodc', 'new') and pos and n == pos[0] and n not in {x for x, _, _ in opt}: continue     # the object itself
    if a.vararg and n == a.vararg.arg and root.kind == 'methodm' and not pos: continue      # the object itself
    if i in stopped or not ok.get((i, n)): undecided.append('%s %s' % (root.name, n)); continue
    if root.kind == 'new' and eng.issub(root.cls, kinds[0]) and not eng.issub(root.cls, kinds[1]) and root.cls is not kinds[0]: continue      # built by the operations, which are followed themselves
    decided += 1
    if (root.name, n) in VALUES and k and 'values' not in k:
      rep.add('recorded', '%s|%s' % (root.name, n), '%s accepts the argument %s, but the values it gives do not depend on it' % (root.name, n), where(fo.info['node'])); continue
    if k - {'test'} or (root.name, n) in UNUSED: continue
    if k and (root.name, n) in TESTED: continue
    rep.add('ignored', '%s|%s' % (root.name, n), '%s accepts the argument %s, which %s' % (root.name, n, 'is only looked at in tests whose outcome changes neither the result nor anything else' if k else 'reaches neither its result nor anything else'), where(fo.info['node']))
  rep.coverage['not_decided'] = undecided
  rep.floor('arguments_decided', decided, 700)
  rep.floor('calls_followed', followed, 400)
  rep.floor('flags_changed', flips, 15)
  rep.explanation = 'Every public operation is followed with all its arguments and with each optional one alone; labels standing for the arguments are traced into the visible parts of the result, the values read from it, older objects, and calls to the outside.'

def call(eng, root, fo, given, st, exact={}):
  selfav = None
  if root.kind == 'methodm': selfav = R.selfsym(eng, root.cls)
  elif root.kind == 'methodc': selfav = eng.av(root.cls)
  elif root.kind == 'new': selfav = eng.NONE
  args, kw = ops.sym_bindings(eng, fo, st, TYPES.get(root.name), selfav)
  a = fo.info['node'].args; pos = a.posonlyargs + a.args
  nd = len(pos) - len(eng.fields(st, fo).get('defaults', ()))
  keep = []; kws = {}
  for i, x in enumerate(args):
    if i >= len(pos): continue
    if i < nd: keep.append(x)
    elif pos[i].arg in given: kws[pos[i].arg] = AV(frozenset(o for o in x.objs if not (o.kind == 'const' and o.info['value'] is None)), x.labs, x.term)
  for k, x in kw.items():
    if k in given or (k != '**' and k in {p.arg for p, d in zip(a.kwonlyargs, eng.fields(st, fo).get('kwdefaults', ())) if d is None}) or (k == '**' and 'kwargs' in given): kws[k] = x
  kws.update(exact)
  if a.vararg and 'varargs' in given: keep += [x for x in args[len(pos):]]
  R.prepare(eng, root)
  try:
    if root.kind == 'new': r = eng.root_call(eng.av(root.cls), keep[1:], kws, st, mod=root.cls.info['mod'], node=root.cls.info['node'])
    else: r = eng.root_call(eng.av(fo), keep, kws, st, mod=fo.info['mod'])
    return ('done' if r is not None else 'raises'), r
  except (R.Budget, RecursionError): return 'budget', None
