"""Reductions followed over two marked parts of their input (for C06 and C07).

A variable that is not in memory is reduced; the result is then read, with the parts it reads its input in replaced by two
marked ones. Labels on the numbers say which part they come from ('c:<part>:<variable>'), whether they would be missing
where the input is ('n:...'), and whether missing places were left out in making them ('m:...')."""
from . import probe, runner as R
from .engine import AV, where
from .dtypes import Types
from .checks import c04, c05, c25

SRC = '''
def pieces(v, i, keep, a, b):
  from pygeode.view import View
  if i is None or i in keep: return [v]
  out = []
  for k in (a, b):
    s = [slice(0, len(x)) for x in v.axes]
    s[i] = slice(k, k + 1)
    out.append(View(v.axes, s))
  return out
def read(v):
  from pygeode.view import View
  from pygeode.progress import FakePBar
  return v.getview(View(v.axes), FakePBar())
def given(v): return Var((v.axes[2],), values=[1., 2., 3., 2., 1.], name='w')
def both(f, x, y, **kw):
  from pygeode.progress import FakePBar
  import pygeode.stats as stats
  return getattr(stats, f)(x, y, pbar=FakePBar(), **kw)
def alone(f, x, **kw):
  from pygeode.progress import FakePBar
  import pygeode.stats as stats
  return getattr(stats, f)(x, pbar=FakePBar(), **kw)
'''
AX = ('time', 'pres', 'lat', 'lon')
NANS = ('nansum', 'nanmin', 'nanmax', 'nanmean', 'nanvar', 'nanstd', 'nanmedian', 'nanprod', 'nancumsum', 'nancumprod', 'nanargmax', 'nanargmin', 'nanpercentile', 'nanquantile', 'fmin', 'fmax', 'nan_to_num')
PLAIN = ('sum', 'prod', 'min', 'max', 'amin', 'amax', 'mean', 'average', 'std', 'var', 'median', 'dot', 'inner', 'matmul', 'tensordot', 'einsum', 'add.reduce', 'multiply.reduce', 'minimum.reduce', 'maximum.reduce', 'ptp', 'trapz')
def spoiled(labs): return labs | frozenset('q:' + l[2:] for l in labs if l.startswith('n:'))
MEANS = ('mean', 'average', 'nanmean', 'median', 'nanmedian', 'std', 'var', 'nanstd', 'nanvar')
TESTS = ('isnan', 'isfinite', 'isinf', 'logical_not', 'logical_and', 'logical_or', 'greater', 'less', 'equal', 'not_equal', 'greater_equal', 'less_equal')

def masked(labs): return frozenset('m:' + l[2:] if l.startswith('n:') else l for l in labs)
def skipped(labs): return frozenset(l for l in labs if not l.startswith(('n:', 's:'))) | frozenset('k:' + l[2:] for l in labs if l.startswith('n:'))

class Nan(Types):
  bare = ('shape', 'ndim', 'size', 'dtype')
  def __init__(self):
    Types.__init__(self); self.seen = {}
  def new(self, eng, node, labs, st, name, init):
    if init == 'nan': labs |= {'s:start'}
    r = eng.mkarr(node, labs, st, tag=('new', name))
    for o in r.objs:
      eng.setf(st, o, 'init', eng.mk_const(init) if init is not None else eng.scalar())
      k = self.seen.setdefault(o, 'a:%d' % len(self.seen))
    return AV(r.objs, r.labs | {k})
  def attr(self, eng, o, name, st):
    if o.kind == 'arr' and name in ('shape', 'ndim', 'size'):
      ps = {l[2:3] for l in eng.labs(eng.av(o), st) if l[:2] == 'c:'}
      return eng.unknown(frozenset('z:' + k for k in ps) if len(ps) == 1 and name != 'ndim' else E)
    r = Types.attr(self, eng, o, name, st)
    return eng.ext('numpy.float64') if r is None and name == 'dtype' and o.kind == 'arr' and any(l.startswith('c:') for l in eng.labs(eng.av(o), st)) else r
  def call(self, eng, name, pa, kw, node, st, labs):
    n = name.split('.')[-1]
    if n.startswith('partial_') and len(pa) > 7:
      nan = 'nan' in n; x = frozenset(eng.deep_labs(pa[4], st))
      eng.mutate(pa[5], 'native sum', node, st, eng.mkarr(node, (skipped(x) if nan else x) | eng.labs(pa[5], st), st, tag=('sum', n)))
      eng.mutate(pa[6], 'native count', node, st, eng.mkarr(node, (masked(x) if nan else frozenset(l for l in x if l[:2] == 'c:')) | eng.labs(pa[6], st), st, tag=('count', n)))
      for v, ls in ((pa[5], skipped(x) if nan else x), (pa[6], masked(x) if nan else frozenset(l for l in x if l[:2] == 'c:'))):
        for o in v.objs:
          if o.kind == 'arr': eng.setf(st, o, 'elem', AV(E, (eng.getf(st, o, 'elem').labs if eng.getf(st, o, 'elem') is not None else E) | ls))
      return eng.NONE
    if name == 'builtins.zip' and pa and not kw:
      qs = [eng.loop_iters(a, st) for a in pa]
      if all(q is not None for q in qs): return eng.mklist('list', node, [eng.mklist('tuple', node, list(c), st, labs, tag=('zip', i)) for i, c in enumerate(zip(*qs))], st, labs, tag='zip')
    if name.startswith('numpy.ma.'): return eng.mkarr(node, masked(labs), st, tag=('ma', name))
    if not name.startswith('numpy.'): return None
    n = name[6:]
    if n in PLAIN and any(l.startswith('n:') for l in labs):
      labs = spoiled(labs)
      if n not in MEANS: return eng.mkarr(node, labs, st, tag=('plain', n))
    if n in MEANS:
      ps = {l[2:3] for l in labs if l[:2] == 'c:'}
      r = Types.call(self, eng, name, pa, kw, node, st, labs)
      ls = (skipped(labs) if n in NANS else labs) | (frozenset('p:' + k for k in ps) if len(ps) == 1 else E)
      return eng.mkarr(node, ls, st, tag=('mean', n))
    if n in NANS: return eng.mkarr(node, skipped(labs), st, tag=('nan', n))
    if n in TESTS: return eng.mkarr(node, masked(labs), st, tag=('test', n))
    if n == 'where' and len(pa) == 3 and any(l.startswith('m:') for l in eng.deep_labs(pa[0], st)): return eng.mkarr(node, skipped(labs), st, tag='where')
    if 'where' in kw and any(l.startswith('m:') for l in eng.deep_labs(kw['where'], st)): return eng.mkarr(node, skipped(labs), st, tag=('sel', n))
    if n in ('empty', 'empty_like'): return self.new(eng, node, E, st, n, 'nothing')
    if n in ('zeros', 'zeros_like'): return self.new(eng, node, E, st, n, 0)
    if n in ('ones', 'ones_like'): return self.new(eng, node, E, st, n, 1)
    if n in ('full', 'full_like'): return self.new(eng, node, frozenset(eng.deep_labs(pa[1], st)) if len(pa) > 1 else E, st, n, const(eng, pa[1], st) if len(pa) > 1 else None)
    return Types.call(self, eng, name, pa, kw, node, st, labs)
  def method(self, eng, o, name, pa, kw, node, st, labs):
    if 'where' in kw and any(l.startswith('m:') for l in eng.deep_labs(kw['where'], st)): return eng.mkarr(node, skipped(labs), st, tag=('sel', name))
    if name in PLAIN and o.kind == 'arr' and any(l.startswith('n:') for l in eng.labs(eng.av(o), st)): return eng.mkarr(node, spoiled(labs | eng.labs(eng.av(o), st)), st, tag=('plain', name))
    return Types.method(self, eng, o, name, pa, kw, node, st, labs)
  def compared(self, labs): return masked(labs)
E = frozenset()

NUM = {'numpy.nan': 'nan', 'numpy.NaN': 'nan', 'numpy.NAN': 'nan', 'math.nan': 'nan', 'numpy.inf': 'inf', 'numpy.Inf': 'inf', 'numpy.PINF': 'inf', 'math.inf': 'inf', 'numpy.NINF': '-inf'}
def const(eng, v, st=None):
  """A number that is known, as 0, 1, 'nan', 'inf', '-inf' ..."""
  c = eng.constval(v, None)
  if c is None and st is not None:
    t = eng.term(v, st); neg = False
    if isinstance(t, tuple) and len(t) == 2 and t[0] == 'uUSub': t = t[1]; neg = True
    n = NUM.get(t[1]) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'ext' else None
    return {'inf': '-inf', '-inf': 'inf'}.get(n, n) if neg else n
  if isinstance(c, float) and c != c: return 'nan'
  return c if c in (0, 1) else str(c) if isinstance(c, (int, float)) else None

def setup(eng, exprs):
  op = {k: v for k, v in c25.handlers(eng).items() if k not in ('pygeode.tools.loopover', 'pygeode.tools.npsum', 'pygeode.tools.npnansum', 'pygeode.climat.loopover', 'pygeode.tools.partial_sum', 'pygeode.tools.partial_nan_sum')}
  def eq(eng, st, o, args, kw, node):
    a, b = (c25.axnames(eng, x, st) for x in args[:2])
    return None if a is None or b is None else eng.mk_const(a == b)
  def canmap(eng, st, o, args, kw, node):
    a, b = (c25.axnames(eng, x, st) for x in args[:2])
    return None if a is None or b is None else args[0] if a == b else eng.NONE
  time = eng.find_class_any('pygeode.timeaxis.Time')
  def position(eng, v, st):
    for o in v.objs:
      x = eng.getf(st, o, 'axes'); q = [eng.seq(s, st) for s in x.objs] if x is not None else []
      if len(q) != 1 or q[0] is None: p.lost = True; continue
      for i, a in enumerate(q[0]):
        if any(c25.axname(eng, y, st) == p.dim or p.dim == 'time' and y.kind == 'inst' and eng.issub(y.info['cls'], time) for y in a.objs): return i
  def along(eng, v, st):
    for o in v.objs:
      x = eng.getf(st, o, 'axes'); q = [eng.seq(s, st) for s in x.objs] if x is not None else []
      if len(q) != 1 or q[0] is None: return True
      for a in q[0]:
        for y in a.objs:
          n = c25.axname(eng, y, st)
          if n is None or n == p.dim or p.dim == 'time' and y.kind == 'inst' and eng.issub(y.info['cls'], time): return True
    return False
  def loop_mem(eng, st, o, args, kw, node):
    keep = kw.get('preserve', args[1] if len(args) > 1 else None)
    if keep is None or eng.constval(keep, 0) is None: keep = eng.mklist('list', node, [], st, tag='keep')
    return eng.call(eng.getf(st, p.mo, 'pieces'), [args[0], eng.mk_const(position(eng, args[0], st)), keep] + [eng.mk_const(k).withlabs(frozenset(('piece:%d' % k,))) for k in (0, 1)], {}, node, st)
  def get(eng, st, o, args, kw, node):
    v = args[1] if len(args) > 1 else kw.get('var')
    names = [c25.axname(eng, x, st) for x in v.objs if x.kind == 'inst']
    ks = sorted(l[6:] for l in eng.deep_labs(args[0], st) if l.startswith('piece:')) or ['-']
    # what does not lie along the divided axis is the same for every part
    if [x for x in v.objs if x.kind == 'inst'] == list(v.objs) and not along(eng, v, st): ks = ['-']
    labs = frozenset('%s:%s:%s' % (t, k, n) for k in ks for n in names for t in ('c', 'n') if t == 'c' or n in p.data)
    p.reads.append((tuple(ks), tuple(names)))
    return eng.mkarr(node, labs, st, tag=('get', labs))
  for h in (eq, canmap, loop_mem, get): h.quiet = True
  for q in c25.EQS: op[q] = eq
  op['pygeode.tools.can_map'] = canmap
  op['pygeode.view.View.loop_mem'] = loop_mem
  op['pygeode.view.View.get'] = get
  eng.tm = Nan()
  eng.exactnp = True; eng.exactgen = True; eng.dataonly = True; eng.axeseither = False
  p = probe.Probe(eng, c04.SRC + c04.HELP + c05.HELP + SRC + ''.join('def op%d(v, u): return %s\n' % (i, e) for i, e in enumerate(exprs)), opaque=op)
  p.dim = None; p.lost = False; p.reads = []; p.data = ('temp', 'other')
  return p

class Run:
  """What was seen when one result was read."""
  def __init__(self, what): self.what = what; self.how = ''; self.cls = ''; self.labs = {}; self.writes = []; self.divs = []; self.reads = []; self.opened = False; self.filter = False; self.weighted = False; self.lost = False

def follow(eng, p, i, dim, direct):
  """Runs of one operation with its input in two parts along one axis."""
  var = eng.find_class_any('pygeode.var.Var'); axis = eng.find_class_any('pygeode.axis.Axis'); dset = eng.find_class_any('pygeode.dataset.Dataset')
  p.dim = dim
  vs = []; st = p.st
  for nm in ('temp', 'other'):
    v, st, how = p.call('lazy', [eng.sym('x', 'arr'), eng.NONE], st=st, salt=len(vs))
    if v is None: return [], 'source ' + how
    v = AV(frozenset(o for o in v.objs if o.kind == 'inst'), v.labs)
    for o in v.objs: eng.setf(st, o, 'name', eng.mk_const(nm))
    vs.append(v)
  out = []
  def listener(run):
    def on(eng, kind, node, d):
      if kind == 'mutate' and d['value'] is not None and d['obj'].kind == 'arr':
        st = d['st']; o = d['obj']
        vl = eng.deep_labs(d['value'], st); kl = eng.deep_labs(d['key'], st) if d.get('key') is not None else E
        whole = d.get('key') is not None and full(eng, d['key'], st)
        if any(l.startswith('m:') for l in kl) and const(eng, d['value'], st) != 'nan' and any(l.startswith('n:') for l in eng.labs(eng.av(o), st)): run.filter = True
        if not any(l.startswith('c:') for l in vl):
          if d['how'] == '.fill()' or whole: eng.setf(st, o, 'init', eng.mk_const(const(eng, d['value'], st)))
          return
        ini = eng.getf(st, o, 'init')
        ol = eng.labs(eng.av(o), st)
        new = p_new(eng, o)
        run.writes.append(dict(to=new, whole=whole, had=frozenset(l for l in ol if l[:2] == 'c:'), value=frozenset(l for l in vl if l[:2] == 'c:'), own=new in vl, missing='s:start' in vl, key=frozenset(l[6:] for l in kl if l.startswith('piece:')),
                               init=eng.constval(ini, '?') if ini is not None else '?', where=where(node), func=eng.chain()[-1] if eng.chain() else ''))
      elif kind == 'getitem' and any(l.startswith('m:') for l in eng.deep_labs(d['key'], d['st'])) and any(l.startswith('n:') for l in eng.labs(d['base'], d['st'])): run.filter = True
      elif kind == 'arith' and d['op'] == 'Mult' and any(l[:2] == 'p:' for x in ('left', 'right') for l in eng.deep_labs(d[x], d['st'])): run.weighted = True
      elif kind == 'arith' and d['op'] in ('Div', 'FloorDiv') and any(l[:2] == 'c:' for l in eng.deep_labs(d['left'], d['st'])):
        run.divs.append(dict(top=frozenset(l for l in eng.deep_labs(d['left'], d['st']) if l[:2] in ('c:', 'm:', 'n:')), by=frozenset(l for l in eng.deep_labs(d['right'], d['st']) if l[:2] in ('c:', 'm:', 'n:', 'z:')),
                             const=eng.constval(d['right'], None) is not None, where=where(node), func=eng.chain()[-1] if eng.chain() else ''))
    return on
  def p_new(eng, o): return eng.tm.seen.get(o)
  run = Run(''); p.reads = []; p.lost = False
  r, st, how = p.call('op%d' % i, vs, st=st.copy(), salt=2, listeners=[listener(run)])
  if r is None: return [], how
  res = []
  for o in sorted(r.objs, key=lambda o: o.n):
    if o.kind != 'inst': continue
    if eng.issub(o.info['cls'], dset):
      q = eng.getf(st, o, 'vars')
      for l in (q.objs if q is not None else ()):
        for x in eng.seq(l, st) or (): res += sorted(x.objs, key=lambda o: o.n)
    elif eng.issub(o.info['cls'], var) and not eng.issub(o.info['cls'], axis): res.append(o)
  if direct:
    run.cls = 'values'; run.reads = p.reads; run.lost = p.lost
    for o in res:
      if o.kind != 'inst': continue
      x = eng.getf(st, o, 'values')
      if x is not None: run.labs[c25.axname(eng, o, st)] = frozenset(eng.deep_labs(x, st))
    run.how = 'done'
    return [run], 'done'
  st0 = st
  for o in res:
    if o.kind != 'inst' or o in vs[0].objs or o in vs[1].objs: continue
    run = Run(''); p.reads = []; p.lost = False; run.cls = o.info['cls'].info['qual']
    v, st, run.how = p.call('read', [eng.av(o)], st=st0.copy(), salt=3, listeners=[listener(run)])
    run.reads = p.reads; run.lost = p.lost
    if v is not None: run.labs[''] = frozenset(eng.deep_labs(v, st))
    out.append(run)
  return out, 'done'

def full(eng, k, st):
  """Is this key the whole array?"""
  c = eng.constval(k, 0)
  if c is Ellipsis: return True
  for o in k.objs:
    if len(k.objs) == 1 and o.kind == 'tuple' and eng.seq(o, st) == (): return True
    if len(k.objs) == 1 and o.kind == 'slice': return all(eng.constval(x, 0) is None for x in eng.fields(st, o).values() if isinstance(x, AV)) and not eng.labs(k, st)
  return c == ()

RED = [('min', ''), ('max', ''), ('sum', ''), ('mean', ''), ('mean', 'weights=False'), ('stdev', ''), ('variance', ''), ('nanmin', ''), ('nanmax', ''), ('nansum', ''), ('nansum', 'weights=False'), ('nanmean', ''), ('nanmean', 'weights=False'), ('nanstdev', ''), ('nanvariance', '')]
def operations():
  """(expression, family, axes it works on, NaN-aware, reads its input at once)"""
  out = []
  for f, w in RED:
    for ax in (('time',), ('lat',), ('pres', 'lon')):
      out.append(('v.%s(%s%s)' % (f, ', '.join(map(repr, ax)), ', ' + w if w else ''), f.replace('nan', ''), ax, f.startswith('nan'), False))
  for f in ('sum', 'mean', 'nansum', 'nanmean'):
    for e in ('given(v)', 'True'): out.append(("v.%s('lat', weights=%s)" % (f, e), f.replace('nan', ''), ('lat',), f.startswith('nan'), False))
  for w in ("given(v)", 'True', 'False'): out.append(("v.variance('lat', weights=%s)" % w, 'variance', ('lat',), False, False))
  for f in ('argmax', 'argmin'):
    for ax in ('lat', 'time'): out.append(('v.%s(%r)' % (f, ax), f, (ax,), False, False))
  for per in ('clim', 'daily', 'diurnal', 'monthly', 'seasonal', 'yearly'):
    for f in ('mean', 'nanmean', 'stdev', 'nanstdev', 'count', 'trend'):
      if per != 'clim' and f == 'trend': continue
      name = {'climmean': 'climatology', 'climnanmean': 'nanclimatology'}.get(per + f, per + f)
      out.append(('v.%s()' % name, {'nanmean': 'mean', 'nanstdev': 'stdev'}.get(f, f), ('time',), 'nan' in f or f == 'count', False))
  for f in ('correlate', 'regress'):
    for ax in (('time',), ('lat', 'lon')): out.append(('both(%r, v, u, axes=[%s], output=%r)' % (f, ', '.join(map(repr, ax)), 'r,r2,p' if f == 'correlate' else 'm,b,r2,p,sm,se'), f, ax, True, True))
  for f in ('difference', 'paired_difference'):
    for ax in (('time',), ('lat', 'lon')): out.append(('both(%r, v, u, axes=[%s], output="d,df,p,ci")' % (f, ', '.join(map(repr, ax))), f, ax, True, True))
  for ax in (('time',), ('lat', 'lon')):
    out.append(('alone("isnonzero", v, axes=[%s], output="m,p,ci")' % ', '.join(map(repr, ax)), 'isnonzero', ax, True, True))
    out.append(('both("multiple_regress", [v], u, axes=[%s], output="beta,r2,p,sb,covb,se")' % ', '.join(map(repr, ax)), 'multiple_regress', ax, False, True))
  return out
