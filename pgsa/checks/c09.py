"""C09: dataset operations act on every variable, in order, and keep the dataset.

A client program builds a dataset of three variables and calls every method lifted from variables, and every method that
adds, removes, renames, replaces, selects or loads.  The variable operation of the same name is replaced by a summary
that records its arguments and returns a fresh variable for each; the dataset that comes out must hold exactly the
variables due, in order, with the attributes of the original."""
from .. import probe, runner as R
from ..engine import AV, Star
from ..report import Broken

SRC = '''
def build(x, y, z, w):
  from pygeode.axis import Lat, Lon, Height, NamedAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  la = Lat(4, name='lat'); lo = Lon(4, name='lon'); h = Height([1., 2.], name='height'); ph = NamedAxis(3, 'phase')
  a = Var((la, lo), values=x, name='ta', atts={'va': 'a'})
  b = Var((h,), values=y, name='t', atts={'va': 'b'})
  c = Var((la, h, ph), values=z, name='tas', atts={'va': 'c'})
  a2 = Var((la, lo), values=w, name='ta')
  b2 = Var((h,), values=w, name='t')
  c2 = Var((la, h, ph), values=w, name='tas')
  p = Var((lo,), values=w, name='T')
  q = Var((h,), values=w, name='q')
  ds = Dataset([a, b, c], atts={'own': 'attribute', 'more': 'one'})
  d2 = Dataset([p, q], atts={'own': 'attribute', 'more': 'two'})
  return {'ds': ds, 'd2': d2, 'a': a, 'b': b, 'c': c, 'a2': a2, 'b2': b2, 'c2': c2, 'p': p, 'q': q, 'la': la, 'lo': lo, 'h': h, 'ph': ph}
def twice(v, x, k=None):
  return v
def drops(v, x, k=None):
  if v.name == 't': return None
  return v
def t_map(ds, x, y): return ds.map(twice, x, k=y)
def t_map_drop(ds, x, y): return ds.map(drops, x, k=y)
def t_call(ds, x): return ds(lat=x)
def t_call_all(ds, x, y): return ds(lat=x, height=y)
def t_call_index(ds, x): return ds(i_lat=x)
def t_remove(ds): return ds.remove('t')
def t_remove2(ds): return ds.remove('tas', 'ta')
def t_remove_case(b, p, a):
  from pygeode.dataset import Dataset
  return Dataset([b, p, a]).remove('t')
def t_sub(ds): return ds - 't'
def t_sub_list(ds): return ds - ['tas', 'ta']
def t_add(ds, p, q): return ds.add(p, q)
def t_add_ds(ds, d2): return ds.add(d2)
def t_plus(ds, p): return ds + p
def t_plus_list(ds, p, q): return ds + [p, q]
def t_plus_ds(ds, d2): return ds + d2
def t_rplus(ds, p): return [p] + ds
def t_rename(ds): return ds.rename_vars(t='r')
def t_rename_dict(ds): return ds.rename_vars({'t': 'r', 'tas': 's'}, ta='tb')
def t_replace(ds, p): return ds.replace_vars(t=p)
def t_replace_dict(ds, p, q): return ds.replace_vars({'ta': q}, t=p)
def t_load(ds): return ds.load()
def t_copy(ds): return ds.copy()
def t_as(ds): 
  from pygeode.dataset import asdataset
  return asdataset(ds)
def t_as_copy(ds):
  from pygeode.dataset import asdataset
  return asdataset(ds, copy=True)
def t_as_var(a):
  from pygeode.dataset import asdataset
  return asdataset(a)
def t_as_list(a, b, c):
  from pygeode.dataset import asdataset
  return asdataset([a, b, c])
def t_as_tuple(a, b, c):
  from pygeode.dataset import asdataset
  return asdataset((c, a, b))
def t_as_mixed(ds, d2):
  from pygeode.dataset import asdataset
  return asdataset([ds, d2])
def t_as_mixed_var(ds, p):
  from pygeode.dataset import asdataset
  return asdataset([p, ds])
def t_concat(ds, d2):
  from pygeode.dataset import concat
  return concat(ds, d2)
def t_concat_list(ds, d2):
  from pygeode.dataset import concat
  return concat([ds, d2])
def t_concat_one(ds):
  from pygeode.dataset import concat
  return concat(ds)
def t_concat_parts(ds, d2, a2, c2):
  from pygeode.dataset import Dataset, concat
  return concat(ds, d2, Dataset([c2, a2], atts={'own': 'attribute', 'more': 'three'}))
def t_iter(ds): return list(ds)
def t_item(ds): return ds['t']
def t_item_axis(ds): return ds['height']
def t_attr(ds): return ds.t
def t_attr_axis(ds): return ds.phase
def t_getaxis(ds): return ds.getaxis('height')
def t_in(ds): return 't' in ds
def t_in_axis(ds): return 'height' in ds
def t_in_not(ds): return 'nothing' in ds
def t_hasaxis(ds): return ds.hasaxis('phase')
def t_hasaxis_not(ds): return ds.hasaxis('nothing')
def t_same_names(a, a2, b):
  from pygeode.dataset import Dataset
  return Dataset([a, b, a2])
def t_unnamed(a, w):
  from pygeode.dataset import Dataset
  from pygeode.var import Var
  return Dataset([a, Var((a.axes[0],), values=w)])
def t_axes(ds): return ds.axes
def t_axis_names(w):
  from pygeode.axis import Lat, Lon
  from pygeode.dataset import Dataset
  from pygeode.var import Var
  l = Lat(4, name='n'); o = Lon(4, name='n')
  return Dataset([Var((l,), values=w, name='v1'), Var((o,), values=w, name='v2'), Var((l,), values=w, name='v3')])
def t_axis_values(w, v1, v2):
  from pygeode.axis import Lat
  from pygeode.dataset import Dataset
  from pygeode.var import Var
  return Dataset([Var((Lat(v1, name='n'),), values=w, name='a1'), Var((Lat(v2, name='n'),), values=w, name='a2'), Var((Lat(v1, name='n'),), values=w, name='a3')])
def t_axis_equal(w):
  from pygeode.axis import Lat, Lon, Height
  from pygeode.dataset import Dataset
  from pygeode.var import Var
  l, o, h = Lat(4, name='n'), Lon(4, name='n'), Height(4, name='h')
  l2, o2, h2 = Lat(4, name='n'), Lon(4, name='n'), Height(4, name='h')
  return Dataset([Var((l,), values=w, name='v1'), Var((o,), values=w, name='v2'), Var((h,), values=w, name='v3'), Var((h2,), values=w, name='v4'), Var((l2,), values=w, name='v5'), Var((o2,), values=w, name='v6')])
'''
# probe: (arguments, expected variables in order ('*' = any), expected attributes, or None where not a dataset)
OWN = {'own': 'attribute', 'more': 'one'}
COMMON = {'own': 'attribute'}
CASES = [
  ('t_map', 'ds x y', 'a b c', OWN), ('t_map_drop', 'ds x y', 'a c', OWN),
  ('t_remove', 'ds', 'a c', OWN), ('t_remove2', 'ds', 'b', OWN), ('t_remove_case', 'b p a', 'p a', {}), ('t_sub', 'ds', 'a c', OWN), ('t_sub_list', 'ds', 'b', OWN),
  ('t_add', 'ds p q', 'a b c p q', OWN), ('t_add_ds', 'ds d2', 'a b c p q', None), ('t_plus', 'ds p', 'a b c p', OWN),
  ('t_plus_list', 'ds p q', 'a b c p q', OWN), ('t_plus_ds', 'ds d2', 'a b c p q', None), ('t_rplus', 'ds p', 'a b c p', OWN),
  ('t_rename', 'ds', 'a =r c', OWN), ('t_rename_dict', 'ds', '=tb =r =s', OWN),
  ('t_replace', 'ds p', 'a p c', OWN), ('t_replace_dict', 'ds p q', 'q p c', OWN),
  ('t_copy', 'ds', 'a b c', OWN), ('t_as', 'ds', 'a b c', OWN), ('t_as_copy', 'ds', 'a b c', OWN),
  ('t_as_var', 'a', 'a', {}), ('t_as_list', 'a b c', 'a b c', {}), ('t_as_tuple', 'a b c', 'c a b', {}),
  ('t_as_mixed', 'ds d2', 'a b c p q', None), ('t_as_mixed_var', 'ds p', 'a b c p', OWN),
  ('t_concat', 'ds d2', 'a b c p q', COMMON), ('t_concat_list', 'ds d2', 'a b c p q', COMMON), ('t_concat_one', 'ds', 'a b c', OWN),
  ('t_same_names', 'a a2 b', '=ta01 b =ta02', {}), ('t_unnamed', 'a x', 'a =var', {}),
]
CONSTS = [('t_in', 'ds', True), ('t_in_axis', 'ds', True), ('t_in_not', 'ds', False), ('t_hasaxis', 'ds', True), ('t_hasaxis_not', 'ds', False)]
PARTS = [('t_item', 'ds', 'b'), ('t_attr', 'ds', 'b'), ('t_item_axis', 'ds', 'h'), ('t_attr_axis', 'ds', 'ph'), ('t_getaxis', 'ds', 'h')]
LISTS = [('t_iter', 'ds', 'a b c'), ('t_axes', 'ds', 'la lo h ph')]

def run(rep):
  eng = R.engine()
  V = eng.find_class_any('pygeode.var.Var'); D = eng.find_class_any('pygeode.dataset.Dataset')
  base = {'pygeode.axis.Axis._readaxisconfig': lambda *a: eng.NONE}
  p = probe.Probe(eng, SRC, opaque=dict(base))
  S = lambda n: eng.sym(n, 'arr')
  made, st0, how = p.call('build', [S('x'), S('y'), S('z'), S('w')])
  if made is None:
    if how != 'raises': raise Broken('C09: building a dataset was not followed')
    rep.add('fails', 'Dataset', 'a dataset of three variables cannot be built'); return
  (md,) = made.objs
  E = {}
  for k, v in eng.fields(st0, md).items():
    if isinstance(k, tuple) and k[0] == 'k':
      if len(v.objs) != 1: raise Broken('C09: %s is not one object' % k[1])
      E[k[1]] = next(iter(v.objs))
  name = {o: k for k, o in E.items()}
  x, y = eng.sym('x', 'num'), eng.sym('y', 'num')
  def arg(k): return x if k == 'x' else y if k == 'y' else eng.av(E[k])
  one = lambda v: next(iter(v.objs)) if v is not None and len(v.objs) == 1 else None

  def contents(v, st):
    """The variables of a dataset, one object each and in order, or None."""
    o = one(v)
    if o is None or o.kind != 'inst' or not eng.issub(o.info['cls'], D): return None, None, o
    l = one(eng.getf(st, o, 'vars'))
    q = eng.seq(l, st) if l is not None else None
    if q is not None and any(isinstance(e, Star) or one(e) is None for e in q): q = None
    d = one(eng.getf(st, o, 'atts')); atts = None
    if d is not None and d.kind == 'dict':
      f = eng.fields(st, d)
      if not (f.get('open') or f.get('elem') is not None or f.get('maybe')):
        atts = {}
        for k, e in f.items():
          if isinstance(k, tuple) and k[0] == 'k': c = one(e); atts[k[1]] = c.info['value'] if c is not None and c.kind == 'const' else None
        if any(e is None for e in atts.values()): atts = None
    if q is None and l is not None and any('op:builtins.sorted' in eng.labs(e, st) for e in [eng.elem(eng.av(l), st)]): q = 'sorted'
    return q if q is None or q == 'sorted' else [one(e) for e in q], atts, o
  def label(o, st):
    if o in name: return name[o]
    n = one(eng.getf(st, o, 'name'))
    return '=%s' % n.info['value'] if n is not None and n.kind == 'const' else '?'
  def var_named(o, st):
    n = one(eng.getf(st, o, 'name')) if o.kind == 'inst' else None
    return n.info['value'] if n is not None and n.kind == 'const' else None

  # -- operations on the dataset as a whole
  tasks = [('case', i) for i in range(len(CASES))]
  tasks += [('const', i) for i in range(len(CONSTS))] + [('part', i) for i in range(len(PARTS))] + [('list', i) for i in range(len(LISTS))]
  tasks += [('special', k) for k in ('t_load', 't_call', 't_call_all', 't_call_index', 't_concat_parts', 't_axis_names', 't_axis_values', 't_axis_equal')]

  # -- methods lifted from variables
  lifted = []
  st = eng.new_state()
  for n, v in sorted((k, v) for k, v in eng.fields(st, D).items() if isinstance(k, str)):
    if n.startswith('_'): continue
    if eng.classattr(V, n, st) is None: continue
    if not any(o.kind == 'func' for o in v.objs): continue
    if all(o.kind == 'func' and getattr(o.info['node'], '_parent', None) is not None and '<locals>' not in o.info['qual'] and o.info['qual'].startswith('pygeode.dataset.Dataset.') for o in v.objs): continue
    lifted.append(n)
  tasks += [('lifted', n) for n in lifted]
  SRC2 = ''.join('def m_%s(ds, x, y): return ds.%s(x, someoption=y)\ndef n_%s(ds): return ds.%s()\n' % (n, n, n, n) for n in lifted)
  p2 = probe.Probe(eng, SRC2, opaque={}, name='pgsa_probe2')

  def targets(n):
    """The package's functions and classes of that name, other than methods."""
    out = set()
    for m in sorted(eng.prog.modules):
      if not m.startswith('pygeode') or m.startswith(('pygeode.plot', 'pygeode.formats')) or m in ('pygeode.dataset',): continue
      v = eng.lookup_global(m, n)
      if v is None: continue
      out |= {o for o in v.objs if o.kind in ('func', 'class') and o.info['qual'].startswith('pygeode.')}
    # what is hooked into variables may go by the name of the numpy function it wraps
    st = eng.new_state()
    for v in [eng.lookup_global('pygeode.var', 'class_hooks')]:
      for l in v.objs if v is not None else ():
        for e in eng.seq(l, st) or ():
          o = None if isinstance(e, Star) else one(e)
          nm = one(eng.getf(st, o, '__name__')) if o is not None and o.kind == 'func' else None
          if nm is not None and nm.kind == 'const' and nm.info['value'] == n: out.add(o)
    return out

  def go(i):
    kind, t = tasks[i]; out = []; n = [0, 0, 0]
    def bad(rule, key, text): out.append((rule, key, text))
    if kind == 'case':
      f, a, want, atts = CASES[t]
      r, st, how = p.call(f, [arg(k) for k in a.split()], st=st0)
      if r is None:
        if how == 'raises': bad('fails', f, '%s always fails' % WHAT(f))
        return n, out
      q, at, o = inorder(contents(r, st), bad, f, WHAT(f))
      if o is not None and o.kind not in ('inst', 'unk', 'sym'): bad('not-a-dataset', f, '%s gives %s' % (WHAT(f), o.kind)); return n, out
      if q is not None:
        n[0] += 1
        got = [label(e, st) for e in q]; w = want.split()
        # a renamed variable is known by its name
        got = [g if g == k else '=%s' % var_named(e, st) if k.startswith('=') else g for g, k, e in zip(got, w, q)] + got[len(w):]
        if got != w: bad('variables', f, '%s gives the variables %s instead of %s' % (WHAT(f), show(got), show(w)))
      if at is not None and atts is not None:
        n[1] += 1
        if at != atts: bad('attributes', f, '%s gives the attributes %s instead of %s' % (WHAT(f), at, atts))
      elif at is not None and any(k not in at for k in COMMON): bad('attributes', f, '%s loses attributes common to both' % WHAT(f))
    elif kind == 'const':
      f, a, want = CONSTS[t]
      r, st, how = p.call(f, [arg(k) for k in a.split()], st=st0)
      o = one(r)
      if how == 'raises': bad('fails', f, '%s always fails' % WHAT(f))
      elif o is not None and o.kind == 'const':
        n[0] += 1
        if bool(o.info['value']) != want: bad('lookup', f, '%s is %r' % (WHAT(f), o.info['value']))
    elif kind == 'part':
      f, a, want = PARTS[t]
      r, st, how = p.call(f, [arg(k) for k in a.split()], st=st0)
      o = one(r)
      if how == 'raises': bad('fails', f, '%s always fails' % WHAT(f))
      elif o is not None and o.kind in ('inst', 'const'):
        n[0] += 1
        if o is not E[want]: bad('lookup', f, '%s gives %s' % (WHAT(f), label(o, st)))
    elif kind == 'list':
      f, a, want = LISTS[t]
      r, st, how = p.call(f, [arg(k) for k in a.split()], st=st0)
      o = one(r); q = eng.seq(o, st) if o is not None else None
      if how == 'raises': bad('fails', f, '%s always fails' % WHAT(f))
      elif q is not None and not any(isinstance(e, Star) or one(e) is None for e in q):
        n[0] += 1
        got = [label(one(e), st) for e in q]
        if sorted(got) != sorted(want.split()) or kind == 'list' and f == 't_iter' and got != want.split(): bad('variables', f, '%s gives %s' % (WHAT(f), show(got)))
    elif kind == 'special': special(t, n, bad)
    else: lift(t, n, bad)
    return n, out

  def recording(objs, log, mapped=True, kept=()):
    def h(eng, st, o, args, kw, node):
      if o not in objs: return None
      first = args[0] if args else None
      f = one(first) if first is not None and not isinstance(first, Star) else None
      log.append((name.get(f), [a for a in args[1:]], dict(kw)))
      k = name.get(f)
      if k in ('a', 'b', 'c'): return eng.av(E[k + '2'])
      return eng.unknown(eng.arglabs(args, kw, st)) if k is None else None
    return h

  def lift(m, n, bad):
    objs = targets(m)
    cl = eng.classattr(V, m, eng.new_state())
    objs |= {o for o in cl.objs if o.kind == 'func'}
    log = []
    h = recording(objs, log)
    p2.opaque = {o.info['qual']: h for o in objs}
    r, st, how = p2.call('m_%s' % m, [eng.av(E['ds']), x, y], st=merged())
    what = 'Dataset.%s' % m
    if how == 'budget': return
    first = [l for l in log]
    if r is not None or log:
      n[2] += 1
      called = [l[0] for l in log]
      if r is None: bad('fails', 'lifted|' + m, '%s fails although the operation succeeds on every variable' % what); return
      if None not in called and sorted(called) != ['a', 'b', 'c']: bad('applied', m, '%s calls the operation on %s instead of once on each of a, b, c' % (what, show(called)))
      for k, a, kw in log:
        kw = {q: v for q, v in kw.items() if q != 'ignore_mismatch'}
        if len(a) != 1 or isinstance(a[0], Star) and a[0].av.objs != x.objs or not isinstance(a[0], Star) and a[0].objs != x.objs or set(kw) != {'someoption'} or kw['someoption'].objs != y.objs:
          bad('arguments', m, '%s does not pass on the arguments it is given' % what); break
      q, at, o = inorder(contents(r, st), bad, m, what)
      if q is not None:
        n[0] += 1
        got = [label(e, st) for e in q]
        if got != ['a2', 'b2', 'c2']: bad('variables', m, '%s gives the variables %s instead of the results for a, b, c' % (what, show(got)))
      elif o is not None and o.kind not in ('inst', 'unk', 'sym'): bad('not-a-dataset', m, '%s gives %s' % (what, o.kind))
      if at is not None:
        n[1] += 1
        if at != OWN: bad('attributes', m, '%s gives the attributes %s instead of %s' % (what, at, OWN))
    elif how == 'raises' and not log:
      bad('not-applied', m, '%s never applies the operation of variables of that name' % what)
  def merged():
    s = st0.copy()
    f = p2.st
    for k, v in eng.fields(f, p2.mo).items(): eng.setf(s, p2.mo, k, v)
    return s

  def special(f, n, bad):
    what = WHAT(f)
    log = []
    if f == 't_load': objs = {o for o in eng.classattr(V, 'load', eng.new_state()).objs}
    elif f.startswith('t_call'): objs = {o for o in eng.classattr(V, '__call__', eng.new_state()).objs}
    elif f == 't_concat_parts': objs = {o for o in eng.lookup_global('pygeode.concat', 'concat').objs}
    else: objs = set()
    if f in ('t_axis_names', 't_axis_values', 't_axis_equal'):
      # equality of axes stands for being of one class here
      def eq(eng, st, o, args, kw, node):
        a, b = [one(x) if not isinstance(x, Star) else None for x in args[:2]]
        return eng.mk_const(a.info['cls'] is b.info['cls']) if a is not None and b is not None and a.kind == b.kind == 'inst' else None
      def oracle(e, a, b, s, how):
        # axes of one length, whose values differ exactly when they come from different arrays
        la, lb = e.labs(a, s), e.labs(b, s)
        if how == '==' and 'op:builtins.len' in la and 'op:builtins.len' in lb and all(o.kind in ('scalar', 'const') for o in a.objs | b.objs): return True
        u, v = la & {'v1', 'v2'}, lb & {'v1', 'v2'}
        return u == v if len(u) == len(v) == 1 else None
      if f == 't_axis_values': eng.oracle = oracle
      else: p.opaque = dict(base, **{'pygeode.axis.Axis.__eq__': eq})
      try: r, st, how = p.call(f, [S('w')] + ([S('v1'), S('v2')] if f == 't_axis_values' else []), st=st0)
      finally: p.opaque = dict(base); eng.oracle = None
      q, at, o = inorder(contents(r, st), bad, f, what) if r is not None else (None, None, None)
      if how == 'raises': bad('fails', f, '%s always fails' % what)
      elif q is not None:
        n[0] += 1; got = []
        for e in q:
          ax = one(eng.getf(st, e, 'axes')); s = eng.seq(ax, st) if ax is not None else None
          got.append(None if s is None or len(s) != 1 else (one(s[0]), var_named(one(s[0]), st) if one(s[0]) is not None else None))
        if None in got or any(g[1] is None for g in got): return
        names = [g[1] for g in got]; alike = [0, 1, 0] if f != 't_axis_equal' else [0, 1, 2, 2, 0, 1]
        for i, u in enumerate(alike):
          for j in range(i):
            if alike[j] != u and names[i] == names[j]: bad('axis-names', f, '%s gives two different axes the same name %s' % (what, names[i]))
            if alike[j] == u and names[i] != names[j]: bad('axis-names', f, '%s gives one axis two names, %s' % (what, show([names[j], names[i]])))
            if alike[j] == u and got[i][0] is not got[j][0]: bad('axis-names', f, '%s gives variables on one axis different axes' % what)
      return
    if f == 't_concat_parts':
      def h(eng, st, o, args, kw, node):
        if o not in objs: return None
        a = args[0] if args else None
        l = one(a) if a is not None and not isinstance(a, Star) else None
        q = eng.seq(l, st) if l is not None else None
        log.append(None if q is None else [name.get(one(e)) for e in q])
        k = name.get(one(q[0])) if q else None
        return eng.av(E[k]) if k else None
      p.opaque = {o.info['qual']: h for o in objs}
      r, st, how = p.call(f, [arg(k) for k in 'ds d2 a2 c2'.split()], st=st0)
      p.opaque = dict(base)
      if how == 'raises': bad('fails', f, '%s always fails' % what); return
      if r is None: return
      if None not in log and log:
        n[0] += 1
        if sorted(log) != [['a', 'a2'], ['c', 'c2']]: bad('concat', f, '%s joins %s instead of the variables of the same name, in the order of the datasets' % (what, '; '.join(show(l) for l in log)))
      q, at, o = inorder(contents(r, st), bad, f, what)
      if q is not None and [label(e, st) for e in q] != 'a b c p q'.split(): bad('variables', f, '%s gives the variables %s' % (what, show([label(e, st) for e in q])))
      if at is not None and at != COMMON: bad('attributes', f, '%s gives the attributes %s instead of those common to all' % (what, at))
      return
    p.opaque = dict(base, **{o.info['qual']: recording(objs, log) for o in objs if o.kind == 'func'})
    args = {'t_load': [], 't_call': [x], 't_call_all': [x, y], 't_call_index': [x]}[f]
    r, st, how = p.call(f, [eng.av(E['ds'])] + args, st=st0)
    p.opaque = dict(base)
    if r is None:
      if how == 'raises': bad('fails', f, '%s always fails' % what)
      return
    called = [l[0] for l in log]
    if None not in called and sorted(called) != ['a', 'b', 'c']: bad('applied', f, '%s acts on %s instead of once on each of a, b, c' % (what, show(called)))
    want = {'t_load': {}, 't_call': {'lat': x}, 't_call_all': {'lat': x, 'height': y}, 't_call_index': {'i_lat': x}}[f]
    for k, a, kw in log:
      kw = {q: v for q, v in kw.items() if q != 'ignore_mismatch'}
      if f != 't_load' and (set(kw) != set(want) or any(kw[q].objs != want[q].objs for q in want)): bad('arguments', f, '%s does not pass on the selection it is given' % what); break
    q, at, o = inorder(contents(r, st), bad, f, what)
    if q is not None:
      n[0] += 1
      got = [label(e, st) for e in q]
      if got != ['a2', 'b2', 'c2']: bad('variables', f, '%s gives the variables %s instead of the results for a, b, c' % (what, show(got)))
    if at is not None:
      n[1] += 1
      if at != OWN: bad('attributes', f, '%s gives the attributes %s instead of %s' % (what, at, OWN))
    if f != 't_load':
      # without the summary: a variable without the axis is left alone
      r, st, how = p.call(f, [eng.av(E['ds'])] + args, st=st0)
      if how == 'raises': bad('fails', f + '|mismatch', '%s fails for a dataset in which not every variable has the axis' % what); return
      if r is None: return
      q, at, o = inorder(contents(r, st), bad, f, what)
      if q is not None and f != 't_call_all':
        n[0] += 1
        if len(q) != 3: bad('variables', f + '|mismatch', '%s gives %d variables instead of 3' % (what, len(q)))
  tot = [0, 0, 0]
  for i, (n, out) in R.parallel(go, list(range(len(tasks)))):
    for j in range(3): tot[j] += n[j]
    for v in out: rep.add(*v)
  rep.floor('results_compared', tot[0], 25)
  rep.floor('attributes_compared', tot[1], 25)
  rep.floor('lifted_methods', tot[2], 60)
  rep.explanation = 'Every lifted method and dataset operation run on a dataset of three variables; variables, order and attributes of the result compared.'

def inorder(c, bad, key, what):
  if c[0] != 'sorted': return c
  bad('order', key, '%s sorts the variables instead of keeping their order' % what)
  return (None,) + c[1:]
def show(l): return '[' + ', '.join(str(x) for x in l) + ']'
def WHAT(f):
  import ast
  for line in SRC.split('def ')[1:]:
    if line.startswith(f + '('): return line.split('return', 1)[1].strip().split('\n')[0]
  return f
