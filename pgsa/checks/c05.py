"""C05: building a derived variable reads no data.

Every operation that describes a new variable is followed on a variable whose values are not in memory.  Reaching its
values - through a view, `get`, indexing, numpy, or its own getview - while the result is only being built is a read."""
from .. import probe, runner as R
from ..engine import AV, where, qualname
from . import c04

# operations of the catalogue whose purpose is to read
READS = {'load'}
MORE = [
 ('add a number', 'v + 1'), ('add to a number', '1 + v'), ('add variables', 'v + v'), ('subtract', 'v - 1'), ('subtract from a number', '1 - v'), ('subtract variables', 'v - v'), ('multiply', 'v * 2'), ('multiply variables', 'v * v(i_pres=0)'), ('divide', 'v / 2'), ('divide a number', '2 / v'), ('divide variables', 'v / v'),
 ('power', 'v ** 2'), ('power of a number', '2 ** v'), ('remainder', 'v % 2'), ('negative', '-v'), ('plus', '+v'), ('magnitude', 'abs(v)'), ('compare by order', 'v < 3'), ('compare by order up', 'v >= v'), ('combine with an axis', 'v * v.axes[2]'), ('combine with its mean', "v - v.mean('time')"), ('combine with an array', 'v + v'),
 ('derivative', "v.deriv('lat')"), ('derivative by a coordinate', "v.deriv('pres', dx=v)"), ('forward derivative', "v.deriv('time', df='left')"), ('second derivative', "v.deriv('lat', df='2')"), ('second derivative by a coordinate', "v.deriv('pres', dx=v, df='2')"), ('right derivative', "v.deriv('pres', df='right')"), ('remove leap years of a dataset', 'noleap(inds(v))'),
 ('differences', "v.diff('time')"), ('integral', "v.integrate('pres')"), ('integral with a start', "v.integrate('pres', v0=v(si_pres=0))"), ('integral by a coordinate', "v.integrate('pres', dx=v)"), ('rectangle integral', "v.integrate('pres', type='rectr')"), ('cumulative sum', "v.cumsum('time')"), ('cumulative sum with a start', "v.cumsum('lat', v0=v(si_lat=0))"),
 ('fill one value', 'v.fill({0.: 1.})'), ('extend', 'v.extend(0, axis_one())'), ('a trend applied', 'v.from_trend(v(si_time=0)) if False else v.climtrend()'),
 ('weights of the variable', "v.getweights()"), ('weights of an axis', "v.getweights(['lat'])"), ('ask for an axis', "v.getaxis('lat')"), ('print', 'str(v)'), ('represent', 'repr(v)'),
 ('group into a dataset', 'inds(v)'), ('copy a dataset', 'Dataset_(inds(v))'), ('add to a dataset', "inds(v).add(v.rename('w'))"), ('remove from a dataset', "inds(v).remove('temp')"), ('replace in a dataset', "inds(v).replace_vars(temp=v*2)"), ('map over a dataset', 'inds(v).map(twice)'), ('select from a dataset', 'inds(v).temp'), ('a dataset by name', "inds(v)['temp']"),
 ('select variables of a dataset', 'inds(v).subset("temp")'), ('functions of a dataset', 'inds(v).sqrt()'), ('derivative in a dataset', "inds(v).deriv('lat')"), ('integral in a dataset', "inds(v).integrate('pres')"), ('interpolate a dataset', "inds(v).interpolate('pres', newpres())"), ('climatology of a dataset', 'inds(v).climatology()'), ('monthly means of a dataset', 'inds(v).monthlymean()'), ('smooth a dataset', "inds(v).smooth('time', 3)"), ('transpose a dataset', "inds(v).transpose('lat', 'lon')"), ('print a dataset', 'str(inds(v))'),
 ('ensemble of datasets', 'ens(inds(v))'), ('concatenate three', 'join3(v)'), ('one argument of a map', 'mapped(v)'), ('clip a function', 'clipped(v)'),
 ('interpolate from a coordinate field', "v.interpolate('pres', newpres(), inx=other(v), outx=Var((newpres(),), values=[1., 2.], name='x'))"), ('interpolate from a field only', "v.interpolate('pres', newpres(), inx=other(v))"), ('interpolate to a coordinate field', "v.interpolate('pres', newpres(), outx=v.interpolate('pres', newpres()))"), ('mean weighted by a field', "v.mean('lat', weights=other(v))"), ('sum weighted by a field', "v.sum('lat', 'lon', weights=other(v))"), ('NaN-aware mean weighted by a field', "v.nanmean('lat', weights=other(v)(si_time=0))"), ('NaN-aware sum weighted by a field', "v.nansum('lat', weights=other(v))"),
 ('standard deviation', "v.stdev('time', 'lon')"), ('fields of unlike axes combined', "v * other(v)(si_time=0) - other(v).mean('lat')"), ('concatenate unlike', 'concat2(v, other(v))'), ('ensemble of others', 'ens2(v, other(v))'), ('dataset of two', 'ds2(v, other(v))'), ('dataset of two selected', 'ds2(v, other(v))(lat=(-30, 30))'), ('dataset of two averaged', "ds2(v, other(v)).mean('lat')"), ('datasets joined', 'ds2(v, other(v)) + inds(v.rename("third"))'), ('map with others', 'ds2(v, other(v)).map(twice)'), ('replace axes by a variable', "v.replace_axes(pres=axis_three(v))"), ('composite of two', 'comp(other(v))'),
 ('select after arithmetic', '(v * 2)(lat=(-30, 30))'), ('arithmetic after a reduction', "v.mean('lat') * 2"), ('reduction after a selection', "v(lat=(-30, 30)).mean('lat')"), ('select from a smoothed variable', "v.smooth('time', 3)(i_time=2)"), ('sort after interpolation', "v.interpolate('pres', newpres()).sorted('lat')"), ('mean of a climatology', "v.monthlymean().mean('lat')"), ('transpose a concatenation', "join(v).transpose('lat', 'time')"), ('select from an ensemble', 'ens(v)(i_lat=0)'), ('fill a composite', 'comp(v).fill(0.)'),
]
UF = 'absolute angle arccos arccosd arccosh arcsin arcsind arcsinh arctan arctand arctanh conj cos cosd cosh exp imag log log10 nan_to_num real sign sin sind sinh sqrt tan tand tanh'.split()
MORE += [('function ' + u, 'v.%s()' % u) for u in UF]
MORE += [('function ' + u, 'ufun(%r, v)' % u) for u in ('arctan2', 'arctand2', 'hypot', 'clip', 'maximum', 'minimum', 'power')]
HELP = '''
def other(v):
  w = Source(v.axes, v.x, name='other')
  return w
def axis_three(v):
  from pygeode.axis import NamedAxis
  return NamedAxis([1., 2., 3.], name='z')
def concat2(v, w):
  from pygeode.concat import concat
  return concat(v(i_time=(0, 3)), w(i_time=(3, 6)))
def ens2(v, w):
  from pygeode.ensemble import ensemble
  return ensemble(v, w.rename('temp'))
def ds2(v, w):
  from pygeode.dataset import Dataset
  return Dataset([v, w])

def twice(v): return v * 2
def Dataset_(d):
  from pygeode.dataset import Dataset
  return Dataset(d.vars)
def join3(v):
  from pygeode.concat import concat
  return concat(v(i_time=(0, 2)), v(i_time=(2, 4)), v(i_time=(4, 6)))
def mapped(v):
  from pygeode.ufunc import map
  return map(v, twice)
def clipped(v):
  from pygeode.ufunc import clip
  return clip(v, 0., 1.)
def ufun(n, v):
  import pygeode.ufunc as u
  f = getattr(u, n)
  return f(v, 2.)
'''

def run(rep):
  eng = R.engine()
  oplist = [(n, e) for n, e, ch in c04.OPS if n not in READS] + MORE
  src = c04.SRC + c04.HELP + HELP + ''.join('def op%d(v): return %s\n' % (i, e) for i, (n, e) in enumerate(oplist))
  op = {k: v for k, v in eng.cutsets[1].items() if k not in c04.KEEP}
  op['pygeode.axis.Axis._readaxisconfig'] = lambda *a: eng.NONE
  p = probe.Probe(eng, src, opaque=op)
  var = eng.find_class_any('pygeode.var.Var'); axis = eng.find_class_any('pygeode.axis.Axis')
  axisnames = ('NamedAxis',)
  def isaxis(o): return o.kind == 'inst' and eng.issub(o.info['cls'], axis) or o.kind == 'sym' and (lambda c: c is not None and eng.issub(c, axis))(eng.typeclass(o.info['type']))
  def variable(o): return o.kind == 'inst' and eng.issub(o.info['cls'], var) and not isaxis(o)
  def go(i):
    what, expr = oplist[i]; hits = {}
    v, st0, how = p.call('lazy', [eng.sym('x', 'arr'), eng.NONE])
    if v is None: return 'source ' + how, False, []
    v = AV(frozenset(o for o in v.objs if o.kind == 'inst'), v.labs)
    srcs = set(v.objs)
    def lis(eng, kind, node, d):
      if kind == 'data_read':
        b = d['base']
        if not b.objs or not all(variable(o) for o in b.objs): return
        # the value an in-memory variable holds was not read from the source
        if any(eng.getf(d['st'], o, 'values') is not None for o in b.objs): return
        hits.setdefault((qualname(node), d['how']), (where(node), tuple(eng.chain()[-4:])))
      elif kind == 'enter':
        f = d['func']; n = f.info['name']
        if n in ('getview', 'getvalues') and f.info['node'].args.args:
          me = d['params'].get(f.info['node'].args.args[0].arg)
          if me is not None and me.objs and all(variable(o) for o in me.objs) and not any(eng.getf(d['st'], o, 'values') is not None for o in me.objs):
            c = d['call']
            hits.setdefault((qualname(c) if c is not None else '?', n), (where(c) if c is not None else '', tuple(eng.chain()[-4:])))
    r, st, how = p.call('op%d' % i, [v], st=st0, salt=1, listeners=[lis])
    # the values themselves are the result (a reduction to a number)
    if r is not None and any(o.kind == 'arr' for o in r.objs): hits = {}
    return how, r is not None, list(hits.items())
  n = 0; why = {}; seen = {}
  for i, (how, ok, hits) in R.parallel(go, list(range(len(oplist)))):
    what, expr = oplist[i]
    n += ok
    if not ok: why[what] = how
    for (qual, h), (at, chain) in hits: seen.setdefault((qual, h), []).append((what, expr, at, chain))
  for (qual, h), l in sorted(seen.items()):
    what, expr, at, chain = l[0]
    rep.add('read', '%s|%s' % (qual, h), '%s (%s)%s reads the values of a variable while the result is only being built: %s in %s: %s' % (what, expr, ' and %d other operations' % (len(l) - 1) if len(l) > 1 else '', h, qual, ' > '.join(str(c) for c in chain)), at)
  rep.coverage['not_decided'] = why
  rep.floor('operations', n, 150)
  rep.explanation = 'Every operation that describes a variable, followed on a variable whose values are not in memory.'
