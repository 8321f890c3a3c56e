"""C04: operations keep the metadata they document keeping.

A variable with a known name, units, attributes and plotting attributes is put through every operation that selects,
reorders, reshapes, reduces, smooths or interpolates.  The metadata fields of the variable that comes out are compared
with those that went in."""
import re
from .. import probe, ops, runner as R
from ..engine import AV

SRC = '''
from pygeode.var import Var
class Source(Var):
  """A variable whose values are not in memory."""
  def __init__(self, axes, x, **kwargs):
    self.x = x
    Var.__init__(self, axes, dtype='d', **kwargs)
  def getview(self, view, pbar): return self.x
def axes():
  from pygeode.axis import Lat, Lon, Pres, NamedAxis
  from pygeode.timeaxis import StandardTime
  t = StandardTime([0., 0.5, 1., 1.5, 366., 366.5], units='days', startdate=dict(year=2000, month=1, day=1), name='time')
  return t, Pres([1000., 500., 100.], name='pres'), Lat([-60., -30., 0., 30., 60.], name='lat'), Lon([0., 120., 240.], name='lon')
def inmem(x, how):
  v = Var(axes(), values=x, name='temp', atts={'k1': 'a1', 'k2': 2}, plotatts={'plottitle': 'T'})
  v.units = 'K'
  return v
def lazy(x, how):
  v = Source(axes(), x, name='temp', atts={'k1': 'a1', 'k2': 2}, plotatts={'plottitle': 'T'})
  v.units = 'K'
  return v
def axis_one():
  from pygeode.axis import NamedAxis
  return NamedAxis([1.], name='one')
'''
# what an operation may change: 'name', 'units', 'atts', 'plotatts'
OPS = [
 ('select by value', 'v(pres=500)', ''), ('select a range', 'v(lat=(-30, 30))', ''), ('select and squeeze', 'v(s_pres=500)', ''), ('select by indices', 'v(i_time=(1, 3))', ''),
 ('select several', 'v(l_pres=[500., 100.])', ''), ('select listed indices', 'v(li_pres=[0, 2])', ''), ('select the complement', 'v(n_pres=(500, 1000))', ''), ('select with an average', 'v(m_lat=(-30, 30))', ''),
 ('select with a NaN-aware average', 'v(nanm_lat=(-30, 30))', ''), ('select several axes', 'v(si_pres=1, lat=(-30, 30), m_lon=(0, 200))', ''), ('slice', 'v.slice[1:3]', ''), ('slice with a stride', 'v.slice[::2, :, 1]', ''), ('select a view', 'v._getitem_asvar((slice(1, 3), slice(0, 3), slice(0, 5), slice(0, 3)))', ''),
 ('squeeze', 'v(si_pres=1).squeeze()', ''), ('squeeze an axis', "v(i_pres=1).squeeze('pres')", ''), ('transpose', "v.transpose('lat', 'lon')", ''), ('transpose everything', "v.transpose('lon', 'lat', 'pres', 'time')", ''), ('extend', 'v.extend(0, axis_one())', ''),
 ('rename', "v.rename('other')", 'name'), ('rename axes', "v.rename_axes(lat='y')", ''), ('replace axes', "v.replace_axes(lat=axis_five())", ''), ('ignore extra axes', "v.replace_axes(foo=axis_five(), ignore_mismatch=True)", ''), ('sort', "v.sorted('lat')", ''), ('sort descending', "v.sorted(pres=-1)", ''),
 ('fill', 'v.fill(0.)', ''), ('unfill', 'v.unfill(1.)', ''), ('convert the type', "v.as_type('float32')", ''), ('load', 'v.load()', ''),
 ('minimum', "v.min('lat')", ''), ('maximum', "v.max('lat')", ''), ('mean', "v.mean('lat')", ''), ('weighted mean', "v.mean('lat', weights=True)", ''), ('mean over two axes', "v.mean('lat', 'lon')", ''), ('unweighted mean', "v.mean('lat', weights=False)", ''), ('sum', "v.sum('pres')", ''), ('weighted sum', "v.sum('lat')", ''),
 ('standard deviation', "v.stdev('time')", ''), ('variance', "v.variance('time')", 'units'), ('index of the maximum', "v.argmax('lat')", 'units'), ('index of the minimum', "v.argmin('lat')", 'units'),
 ('NaN-aware minimum', "v.nanmin('lat')", ''), ('NaN-aware maximum', "v.nanmax('lat')", ''), ('NaN-aware mean', "v.nanmean('lon')", ''), ('NaN-aware weighted mean', "v.nanmean('lat')", ''), ('NaN-aware sum', "v.nansum('pres')", ''), ('NaN-aware weighted sum', "v.nansum('lat')", ''), ('NaN-aware standard deviation', "v.nanstdev('time')", ''), ('NaN-aware variance', "v.nanvariance('time')", 'units'),
 ('smooth', "v.smooth('time', 3)", ''), ('smooth with a kernel', "v.smooth('lat', [1., 2., 1.])", ''), ('smooth spectrally', "v.fft_smooth('lon', 2)", ''), ('interpolate', "v.interpolate('pres', newpres())", ''), ('interpolate linearly', "v.interpolate('pres', newpres(), interp_type='linear')", ''), ('interpolate along given coordinates', 'interp_given(v)', ''), ('interpolate from given coordinates', 'interp_from(v)', ''), ('interpolate to given coordinates', 'interp_to(v)', ''), ('interpolate with extrapolation', "v.interpolate('pres', newpres(), d_below=0., d_above=0.)", ''),
 ('interpolate onto another kind of axis', "v.interpolate('pres', axis_five(), outx=Var((axis_five(),), values=[1., 2., 3., 4., 5.], name='c'))", ''), ('interpolate without nonmonotonic points', "v.interpolate('pres', newpres(), omit_nonmonotonic=True)", ''),
 ('squeeze at a value', 'v.squeeze(pres=500.)', ''), ('extend with several axes', 'v.extend(1, [axis_one(), axis_five()])', ''), ('select an auxiliary field', 'v(month=1)', ''), ('select dates', "v(time='1 Jan 2000')", ''), ('sort several', "v.sorted('lat', 'lon')", ''), ('sort everything', 'v.sorted()', ''),
 ('slice with an ellipsis', 'v.slice[..., 0]', ''), ('slice with a list', 'v.slice[:, [0, 2]]', ''), ('replace axes by class', 'v.replace_axes({v.axes[2].__class__: axis_five()})', ''), ('replace all axes', 'v.replace_axes(newaxes=list(axes()))', ''),
 ('smooth without spectra', "v.smooth('time', 3, fft=False)", ''), ('sum with given weights', "v.sum('lat', weights=Var((v.axes[2],), values=[1., 2., 3., 2., 1.], name='w'))", ''), ('mean with given weights', "v.mean('lat', weights=Var((v.axes[2],), values=[1., 2., 3., 2., 1.], name='w'))", ''),
 ('NaN-aware mean with given weights', "v.nanmean('lat', weights=Var((v.axes[2],), values=[1., 2., 3., 2., 1.], name='w'))", ''), ('weighted variance', "v.variance('lat', weights=Var((v.axes[2],), values=[1., 2., 3., 2., 1.], name='w')) if False else v.variance('lat')", 'units'),
 ('maximum over axes by class', 'v.max(v.axes[2].__class__)', ''), ('minimum by index', 'v.min(2)', ''), ('concatenate datasets', 'dsjoin(v)', ''), ('concatenate along a new axis', 'ens(v)', ''),
 ('lag', "v.lag('time', [0, 1])", ''), ('concatenate', 'join(v)', ''),
 ('flatten', 'flat(v)', ''), ('composite', 'comp(v)', ''), ('split the time axis', 'split(v)', ''), ('join split time axes', 'rejoin(v)', ''), ('remove leap years', 'noleap(v)', ''),
 ('select through a dataset', 'inds(v)(lat=(-30, 30)).vars[0]', ''), ('squeeze through a dataset', 'inds(v)(si_pres=0).squeeze().vars[0]', ''), ('sort through a dataset', "inds(v).sorted('lat').vars[0]", ''), ('rename axes through a dataset', "inds(v).rename_axes(lat='y').vars[0]", ''), ('rename variables of a dataset', "inds(v).rename_vars(temp='other').vars[0]", 'name'), ('reduce through a dataset', "inds(v).mean('lat').vars[0]", ''),
 ('broadcast', 'v.extend(0, axis_one()).squeeze()', ''), ('chain', "v.transpose('lat', 'time')(lat=(-30, 30)).mean('lat')", ''),
]
OPS += [('climatology', 'v.climatology()', 'name'), ('NaN-aware climatology', 'v.nanclimatology()', 'name')]
for per in 'clim', 'daily', 'diurnal', 'monthly', 'seasonal', 'yearly':
  for f in 'mean', 'nanmean', 'stdev', 'nanstdev', 'count', 'trend':
    if (per == 'clim' and 'mean' in f) or (per != 'clim' and f == 'trend'): continue
    OPS.append(('%s %s' % (per, f), 'v.%s%s()' % (per, f), 'name' + (' units' if f in ('count', 'trend') else '')))
HELP = '''
def axis_five():
  from pygeode.axis import NamedAxis
  return NamedAxis([1., 2., 3., 4., 5.], name='y')
def newpres():
  from pygeode.axis import Pres
  return Pres([900., 600.], name='pres')
def interp_given(v):
  p = newpres()
  return v.interpolate('pres', p, inx=Var((v.axes[1],), values=[3., 2., 1.], name='b'), outx=Var((p,), values=[3., 2.], name='c'))
def interp_from(v): return v.interpolate('pres', newpres(), inx=Var((v.axes[1],), values=[3., 2., 1.], name='b'))
def interp_to(v):
  p = newpres()
  return v.interpolate('pres', p, outx=Var((p,), values=[3., 2.], name='c'))
def dsjoin(v):
  from pygeode.dataset import concat, asdataset
  return concat(asdataset([v(i_time=(0, 3))]), asdataset([v(i_time=(3, 6))])).vars[0]
def ens(v):
  from pygeode.ensemble import ensemble
  return ensemble(v, v)
def join(v):
  from pygeode.concat import concat
  return concat(v(i_time=(0, 3)), v(i_time=(3, 6)))
def flat(v):
  from pygeode.composite import flatten
  return flatten(v, 2)
def comp(v):
  from pygeode.composite import composite
  return composite(v, li_pres=[0, 1, 2], evlen=1)
def split(v):
  from pygeode.timeutils import splittimeaxis
  return splittimeaxis(v)
def rejoin(v):
  from pygeode.timeutils import splittimeaxis, jointimeaxes
  return jointimeaxes(splittimeaxis(v))
def noleap(v):
  from pygeode.timeutils import removeleapyears
  return removeleapyears(v)
def inds(v):
  from pygeode.dataset import asdataset
  return asdataset([v])
'''
# followed rather than summarised
KEEP = {'pygeode.var.Var.load', 'pygeode.tools.whichaxis'}
WANT = {'name': 'temp', 'units': 'K'}
DICTS = {'atts': {'k1': 'a1', 'k2': 2}, 'plotatts': {'plottitle': 'T'}}
LONG = {'name': 'name', 'units': 'units', 'atts': 'attributes', 'plotatts': 'plotting attributes'}

def entries(eng, o, st, attr):
  """{key: AV} of a dictionary attribute, or None when its contents are not exactly known."""
  v = eng.getf(st, o, attr)
  if v is None: v = eng.classattr(o.info['cls'], attr, st)
  if v is None: return None
  if len(v.objs) != 1: return None
  d = next(iter(v.objs))
  if d.kind != 'dict': return None
  f = eng.fields(st, d)
  if f.get('open') or f.get('elem') is not None or f.get('maybe'): return None
  return {k[1]: x for k, x in f.items() if isinstance(k, tuple) and k[0] == 'k'}
def consts(eng, o, st, a):
  x = eng.getf(st, o, a)
  return {y.info['value'] for y in (x.objs if x is not None else ()) if y.kind == 'const'}
def wrong(v, want, sure=True):
  """Some possible value is a constant other than the wanted one (or, not being sure of the path, all are)."""
  if not sure and any(o.kind != 'const' or o.info['value'] == want for o in v.objs): return []
  return [o.info['value'] for o in v.objs if o.kind == 'const' and not (type(o.info['value']) is type(want) and o.info['value'] == want)]

def run(rep):
  eng = R.engine()
  src = SRC + HELP + ''.join('def op%d(v): return %s\n' % (i, e) for i, (n, e, ch) in enumerate(OPS))
  op = {k: v for k, v in eng.cutsets[1].items() if k not in KEEP}
  op['pygeode.axis.Axis._readaxisconfig'] = lambda *a: eng.NONE
  p = probe.Probe(eng, src, opaque=op)
  var = eng.find_class_any('pygeode.var.Var')
  axis = eng.find_class_any('pygeode.axis.Axis')
  items = [(i, mk) for i in range(len(OPS)) for mk in ('inmem', 'lazy')]
  def go(it):
    i, mk = it; what, expr, change = OPS[i]; out = []; n = 0; sure = 'dataset' not in what
    eng.listeners = []
    v, st0, how = p.call(mk, [eng.sym('x', 'arr'), eng.NONE])
    if v is None: return 'source ' + how, 0, out
    v = AV(frozenset(o for o in v.objs if o.kind == 'inst'), v.labs)
    r, st, how = p.call('op%d' % i, [v], st=st0, salt=1)
    if r is None: return how, 0, out
    res = [o for o in r.objs if o.kind == 'inst' and eng.issub(o.info['cls'], var) and not eng.issub(o.info['cls'], axis)]
    for o in res:
      for a, want in WANT.items():
        if a in change.split(): continue
        if not sure and any(want in consts(eng, y, st, a) for y in res): continue
        x = eng.getf(st, o, a)
        if x is None: x = eng.classattr(o.info['cls'], a, st)
        if x is None: continue
        n += 1
        for w in wrong(x, want, sure): out.append((a, '%s|%s' % (what, a), '%s (%s): the %s of the result can be %r instead of %r' % (what, expr, LONG[a], w, want), o.info['cls'].info['qual']))
      for a, want in DICTS.items():
        if a in change.split(): continue
        d = entries(eng, o, st, a)
        if d is None: continue
        n += 1
        for k, w in want.items():
          if k not in d: out.append((a, '%s|%s|%s' % (what, a, k), '%s (%s): the %s of the result have lost %r' % (what, expr, LONG[a], k), o.info['cls'].info['qual']))
          elif wrong(d[k], w, sure): out.append((a, '%s|%s|%s' % (what, a, k), '%s (%s): the %s of the result have %r changed from %r to %r' % (what, expr, LONG[a], k, w, wrong(d[k], w, sure)[0]), o.info['cls'].info['qual']))
        for k in d:
          if k not in want and not (a == 'plotatts' and k in ('plotscale', 'plotorder')): out.append((a, '%s|%s|%s' % (what, a, k), '%s (%s): the %s of the result have gained %r' % (what, expr, LONG[a], k), o.info['cls'].info['qual']))
    if change.startswith('name') and 'rename' not in what:
      for o in res:      # the name may get a suffix, it does not go away
        x = eng.getf(st, o, 'name') or eng.classattr(o.info['cls'], 'name', st)
        for w in {y.info['value'] for y in (x.objs if x is not None else ()) if y.kind == 'const'}:
          if not (isinstance(w, str) and w.startswith('temp')): out.append(('name', '%s|name' % what, '%s (%s): the name of the result is %r instead of the input\'s with a suffix' % (what, expr, w), o.info['cls'].info['qual']))
    return how, n, out
  tot = 0; done = set(); why = {}
  for (i, mk), (how, n, out) in R.parallel(go, items):
    tot += n
    if n: done.add(i)
    if how != 'done' or not n: why['%s %s' % (OPS[i][0], mk)] = how
    for rule, key, text, at in out: rep.add(rule, key, text, at)
  rep.coverage['not_decided'] = why
  rep.floor('operations', len(done), 60)
  rep.floor('metadata_fields_compared', tot, 400)
  rep.explanation = 'Every operation that only selects, reorders, reshapes, reduces, smooths or interpolates is interpreted on a variable with known metadata, in memory and not; name, units, attributes and plotting attributes of the result compared.'
