"""C27: saving writes every variable, axis, attribute and chunk.

Datasets of several variables, axes and attributes are saved through each writer, followed abstractly; the calls of the
file libraries are collected on every path and compared with the dataset. A variable is read in two marked pieces, and
both must reach the file."""
import itertools, re
from .. import probe, runner as R
from ..dtypes import Types
from ..engine import AV, where
from ..report import Broken

SRC = '''
class Cell: pass
def pieces(v, a, b):
  from pygeode.view import View
  n = [len(x) for x in v.axes]
  if len(n) == 0: return [v]
  rest = [slice(0, k) for k in n[1:]]
  return [View(v.axes, [slice(a, a + 1)] + rest), View(v.axes, [slice(b, n[0])] + rest)]
def plain(p, q, r, s, t, y, z):
  from pygeode.axis import XAxis, ZAxis, DummyAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  x = XAxis(s, name='ex', atts={'xa': 'text', 'xn': ['u', 'v'], 'xb': 2.5, '_xc': 'own', 'long_name': 'Ex'})
  d = DummyAxis(4, name='rec')
  l = ZAxis(t, name='lev', atts={'za': 'up', 'zb': 0})
  return Dataset([Var((x, d), values=p, name='first', atts={'fa': 'text', 'fb': y, 'fc': 0, 'fd': 0.5, 'fe': '', '_Fg': 'own', 'LONG': 'Up', 'history': 'made'}),
    Var((l, x), values=q, name='second', atts={'sa': 2, 'sn': ['u', 'v'], 'sb': 'more'}),
    Var((d,), values=r, name='third', atts={'ta': 'a', 'tb': 'b'}), Var((), values=z, name='zeroth', atts={'oa': 'a'})],
    atts={'ga': 'text', 'gn': ['u', 'v'], 'gb': y, 'gc': 'end', '_gd': 'own', 'history': 'made'})
def coded(p, q, r, s, t, y, z):
  from pygeode.axis import Lat, Lon, Pres, Station, NamedAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  x = Lat(s, name='ex', atts={'xa': 'text', 'xb': 2.5, '_xc': 'own', 'long_name': 'Ex'})
  l = Pres(t, name='lev', atts={'za': 'up', 'zb': 0})
  d = NamedAxis(z, name='rec', extra=y, atts={'ra': 'text'})
  return Dataset([Var((x, d), values=p, name='first', atts={'fa': 'text', 'fb': y, 'fc': 0, 'fd': 0.5, '_Fg': 'own', 'LONG': 'Up', 'history': 'made'}),
    Var((l, x), values=q, name='second', atts={'sa': 2, 'sb': 'more'}),
    Var((d,), values=r, name='third', atts={'ta': 'a', 'tb': 'b'})], atts={'ga': 'text', 'gb': y, 'gc': 'end', '_gd': 'own', 'history': 'made'})
def stations(p, q, r, s, t, y, z):
  from pygeode.axis import Pres, Station
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  l = Pres(t, name='lev', atts={'za': 'up', 'zb': 0})
  d = Station(values=4, name='place', lat=s, lon=z, height=y)
  return Dataset([Var((l, d), values=p, name='first', atts={'fa': 'text', 'fb': y}), Var((d,), values=q, name='second', atts={'sa': 2, 'sb': 'more'})], atts={'ga': 'text', 'gb': y, 'gc': 'end', '_gd': 'own', 'history': 'made'})
class Fake: pass
def parts(shape, preserve):
  from pygeode.view import View
  f = Fake()
  f.axes = [None for n in shape]
  f.naxes = len(shape)
  f.shape = tuple(shape)
  f.integer_indices = [[i for i in range(n)] for n in shape]
  f.slices = [slice(0, n) for n in shape]
  out = []
  for v in View.loop_mem(f, preserve): out.append(v)
  return out
def nc_save(d, **kw):
  from pygeode.formats import netcdf
  netcdf.save('file.nc', d, **kw)
  return 1
def nc4_save(d, **kw):
  from pygeode.formats import netcdf4
  netcdf4.save('file.nc', d, **kw)
  return 1
def any_save(d, **kw):
  from pygeode.formats import netcdf, save
  save('file.nc', d, format=netcdf, **kw)
  return 1
def one(p, q, r, s, t, y, z): return plain(p, q, r, s, t, y, z).vars[1]
def several(p, q, r, s, t, y, z): return plain(p, q, r, s, t, y, z).vars[:2]
def groups(p, q, r, s, t, y, z): return {'north': plain(p, q, r, s, t, y, z), 'south': plain(q, p, r, s, t, y, z)}
'''
X, L, Rz = ('ex', {'xa': 1, 'xb': 1, '_xc': 1, 'long_name': 1}, 's'), ('lev', {'za': 1, 'zb': 1}, 't'), ('rec', {'ra': 1}, 'z')
V1, V2, V3, V0 = ('first', {'fa': 1, 'fb': 'y', 'fc': 1, 'fd': 1, 'fe': 1, '_Fg': 1, 'LONG': 1, 'history': 1}, 'p'), ('second', {'sa': 1, 'sb': 1}, 'q'), ('third', {'ta': 1, 'tb': 1}, 'r'), ('zeroth', {'oa': 1}, 'z')
G = {'ga': 1, 'gb': 'y', 'gc': 1, '_gd': 1, 'history': 1}
C1 = ('first', {k: v for k, v in V1[1].items() if k != 'fe'}, 'p')
WANT = {'plain': ([V1, V2, V3, V0, X, L], ['ex', 'rec', 'lev'], G), 'one': ([V2, X, L], ['ex', 'lev'], {}), 'several': ([V1, V2, X, L], ['ex', 'rec', 'lev'], {}),
        'coded': ([C1, V2, V3, X, L, Rz, ('rec_extra', {}, 'y')], ['ex', 'rec', 'lev'], G),
        'stations': ([('first', {'fa': 1, 'fb': 'y'}, 'p'), ('second', {'sa': 1, 'sb': 1}, 'q'), L, ('lat', {}, 's'), ('lon', {}, 'z'), ('height', {}, 'y')], ['lev', 'place'], G),
        'groups': ([V1, V2, V3, V0, X, L], ['ex', 'rec', 'lev'], G)}
RANK = {'first': 2, 'second': 2, 'third': 1, 'ex': 1, 'lev': 1, 'rec': 1, 'zeroth': 0, 'rec_extra': 1, 'lat': 1, 'lon': 1, 'height': 1}
PLAIN = dict(cfmeta=False)
RUNS = [(f, d, kw) for f in ('nc_save', 'nc4_save') for d, kw in (
  ('plain', dict(PLAIN, version=3)), ('plain', dict(PLAIN, version=4)), ('plain', dict(PLAIN, compress=True)), ('plain', dict(PLAIN, unlimited='rec')), ('plain', dict(PLAIN, unlimited='ex')), ('one', PLAIN), ('several', PLAIN),
  ('coded', {}), ('coded', dict(version=3)), ('stations', {}), ('coded', dict(pack=True)), ('coded', dict(pack=['second'])))] + [
  ('nc4_save', 'groups', PLAIN), ('any_save', 'plain', dict(cfmeta=False)), ('any_save', 'coded', {}), ('any_save', 'several', PLAIN), ('any_save', 'coded', dict(pack=True))]
FAIL = ['nc_create', 'nc_def_dim', 'nc_def_var', 'nc_put_att', 'nc_put_att_text', 'nc_put_att_int', 'nc_put_att_float', 'nc_put_att_double', 'nc_set_fill', 'nc_enddef', 'nc_put_var', 'nc_close', 'nc_def_var_deflate']
MODS = ('pygeode.formats.netcdf', 'pygeode.formats.netcdf4')
FILE = {'nc_save': 'pygeode/formats/netcdf.py', 'any_save': 'pygeode/formats/netcdf.py', 'nc4_save': 'pygeode/formats/netcdf4.py'}

class Model(Types):
  def call(self, eng, name, pa, kw, node, st, labs):
    if name == 'netCDF4.Dataset': return eng.sym('LIB:nc4:')
    return Types.call(self, eng, name, pa, kw, node, st, labs)

def setup(eng):
  for m in MODS: eng.modstate.pop(m, None)
  same = lambda eng, st, o, args, kw, node: args[0] if args and isinstance(args[0], AV) else None
  def name(v, st):
    o = next(iter(v.objs)) if len(v.objs) == 1 else None
    f = eng.getf(st, o, 'name') if o is not None and o.kind == 'inst' else None
    n = eng.constval(f, None) if f is not None else None
    return n if isinstance(n, str) else None
  def equal(eng, st, o, args, kw, node):
    a, b = (name(x, st) for x in args[:2])
    return None if a is None or b is None else eng.mk_const(a == b)
  def mapped(eng, st, o, args, kw, node):
    a, b = (name(x, st) for x in args[:2])
    return None if a is None or b is None else args[0] if a == b else eng.NONE
  op = dict(eng.cutsets[1])
  def pieces(eng, st, o, args, kw, node):
    return eng.call(eng.getf(st, p.mo, 'pieces'), [args[0]] + [eng.mk_const(k).withlabs(frozenset(('piece:%d' % k,))) for k in (0, 1)], {}, node, st)
  def get(eng, st, o, args, kw, node):
    v = args[1]
    labs = {l for l in eng.deep_labs(v, st) if l in LABELS} | {l for l in eng.deep_labs(args[0], st) if l.startswith('piece:')}
    return eng.tm.make(eng, node, frozenset(labs), st, ('get', name(v, st), tuple(sorted(labs))), None)
  op.update({'pygeode.libhelper.load_lib': lambda eng, st, o, args, kw, node: eng.sym('LIB:lib'), 'pygeode.axis.Axis._readaxisconfig': lambda *a: eng.NONE,
             'pygeode.tools.point': same, 'pygeode.view.View.loop_mem': pieces, 'pygeode.view.View.get': get, 'pygeode.progress.PBar.__init__': lambda *a: eng.NONE,
             'pygeode.tools.can_map': mapped})
  for m, mod in eng.prog.modules.items():
    if m in ('pygeode.axis', 'pygeode.timeaxis'):
      for c in mod.tree.body:
        for f in getattr(c, 'body', ()):
          if getattr(f, 'name', None) == '__eq__': op['%s.%s.__eq__' % (m, c.name)] = equal
  eng.tm = Model()
  p = probe.Probe(eng, SRC + ''.join('import %s\n' % m for m in MODS), opaque=op)
  eng.tm.cell = next(iter(eng.getf(p.st, p.mo, 'Cell').objs))
  for m in MODS:
    mo = eng.intern.get(('module', m))
    if mo is None: raise Broken('%s was not loaded' % m)
    for k, v in list(eng.fields(p.st, mo).items()):
      if isinstance(v, AV) and any(o.kind == 'sym' and o.info['path'].startswith('LIB:') for o in v.objs): eng.setf(p.st, mo, k, AV(frozenset(o for o in v.objs if o.kind == 'sym'), v.labs))
  return p
LABELS = frozenset('pqrstyz')

def save(eng, p, f, d, kw, fail=None, known=()):
  """What one save does: {fact: True on every path, False on some}, facts seen of unknown subject, and how it ends."""
  st = p.st.copy()
  args = []
  for a in 'pqrstyz':
    v = eng.sym(a, 'arr'); eng.tm.put(eng, v, 'float32', st); args.append(v)
  ds, st, how = p.call(d, args, st=st)
  if how != 'done': return None, set(), how + ' making the dataset', 0
  book = next(iter(eng.mklist('list', None, [], st, tag=('book',)).objs))
  for k in known: eng.setf(st, book, ('fact',) + k, eng.mk_const(False))
  facts, und = {}, set(); n = [0]; names = {}
  def fact(st, *k):
    facts.setdefault(k, 0)
    eng.setf(st, book, ('fact',) + k, eng.mk_const(True))
  def text(v):
    c = eng.constval(v, None)
    return c.decode() if isinstance(c, bytes) else c if isinstance(c, (str, int)) else None
  def handle(v, st):
    """Name behind a variable id: a cell filled by nc_def_var, or -1 for the file itself."""
    c = eng.constval(v, None)
    if c == -1: return ''
    for o in v.objs:
      if o.kind == 'inst' and len(v.objs) == 1:
        x = eng.getf(st, o, 'value'); c = eng.constval(x, None) if x is not None else None
    return names.get(c)
  def att(st, at, k, v):
    if at is None or k is None: und.add('attribute'); return
    fact(st, 'att', at, k)
    if v is not None:
      for l in eng.deep_labs(v, st):
        if l in LABELS: fact(st, 'attval', at, k, l)
  def written(st, at, where, data):
    if at is None: und.add('data'); return
    ps = [l for l in eng.deep_labs(where, st) if l.startswith('piece:')] if where is not None else []
    dl = eng.deep_labs(data, st)
    ds = [l for l in dl if l in LABELS]
    for q in ds: fact(st, 'source', at, q)
    if len(ps) == 1:
      fact(st, 'data', at, ps[0])
      if not any(l.startswith('piece:') for l in dl): fact(st, 'unpieced', at)
      elif ps[0] not in dl: fact(st, 'mixed', at)
    elif not any(l.startswith('piece:') for l in dl): fact(st, 'data', at, 'all')
    elif not ps and len({l for l in dl if l.startswith('piece:')}) == 1: fact(st, 'misplaced', at)
    else: und.add('data')
  def atts(st, at, v):
    """A whole dictionary of attributes is given to the library."""
    o = next(iter(v.objs)) if len(v.objs) == 1 else None
    if o is None or o.kind != 'dict' or eng.seq(o, st) is None and 'open' in eng.fields(st, o): und.add('attribute'); return
    for k, x in eng.fields(st, o).items():
      if isinstance(k, tuple) and k[0] == 'k': att(st, at, k[1], x)
  def lib(eng, o, args, kw, node, st):
    path = o.info['path']; s = path.split('.')[-1]
    av = [a for a in args if isinstance(a, AV)]
    n[0] += 1
    if path.startswith('LIB:nc4:'):
      at = target(path[:-len(s) - 1] if path.endswith('.' + s) else path)
      if s == 'createGroup': return eng.sym('LIB:nc4:%s/' % text(av[0]))
      if s == 'createDimension':
        k = text(av[0] if av else kw.get('dimname', eng.NONE))
        if k is None: und.add('dimension')
        else: fact(st, 'dim', at + k)
        return eng.NONE
      if s == 'createVariable':
        k = text(av[0] if av else kw.get('varname', eng.NONE))
        if k is None: und.add('variable'); return None
        fact(st, 'var', at + k)
        dm = kw.get('dimensions', av[2] if len(av) > 2 else None)
        q = eng.loop_iters(dm, st) if dm is not None else None
        if q is not None: fact(st, 'rank', at + k, len(q))
        return eng.sym('LIB:nc4:%s.variables[%r]' % (at, k))
      if at is None: und.add('variable'); return None
      if s in ('setncatts', 'setncattr', 'setncattr_string'):
        if s == 'setncatts': atts(st, at, av[0])
        else: att(st, at, text(av[0]), av[1])
        return eng.NONE
      if s in ('__enter__',): return eng.av(eng.sym('LIB:nc4:'))
      return None
    base = s.rsplit('_', 1)[0]
    r = eng.mk_const(1 if fail and s.startswith(fail) and (fail != 'nc_def_var' or s == fail) else 0)
    if s == 'nc_def_dim':
      k = text(av[1])
      if k is None: und.add('dimension')
      else: fact(st, 'dim', k)
    elif s == 'nc_def_var':
      k = text(av[1])
      if k is None: und.add('variable')
      else:
        names[n[0]] = k; fact(st, 'var', k)
        c = eng.constval(av[3], None)
        if c is not None: fact(st, 'rank', k, c)
      for x in av[-1].objs:
        if x.kind == 'inst': eng.setf(st, x, 'value', eng.mk_const(n[0]))
    elif base == 'nc_put_att': att(st, handle(av[1], st), text(av[2]), av[-1])
    elif base in ('nc_put_vara', 'nc_put_vars'): written(st, handle(av[1], st), av[2], av[-1])
    elif base == 'nc_put_var': written(st, handle(av[1], st), None, av[-1])
    elif s in ('nc_close', 'nc_enddef', 'nc_create', 'nc_set_fill', 'nc_def_var_deflate'): fact(st, 'call', s)
    return r
  def target(path):
    """Name of the variable or group a library object stands for."""
    m = re.fullmatch(r"LIB:nc4:(\w*/?)(?:\.variables\['(\w+)'\])?", path)
    return m.group(1) + (m.group(2) or '') if m else None
  def on(eng, kind, node, data):
    if kind == 'mutate' and data.get('how') == 'item assignment' and data['obj'].kind == 'sym' and data['obj'].info['path'].startswith('LIB:nc4:'):
      written(data['st'], target(data['obj'].info['path']), data.get('key'), data['value'])
  eng.libcall = lib
  try: r, st2, how = p.call(f, [ds], {k: val(eng, x, st) for k, x in kw.items()}, listeners=[on], st=st, salt=3)
  finally: eng.libcall = None
  out = {}
  for k in facts:
    v = eng.getf(st2, book, ('fact',) + k) if r is not None else None
    out[k] = v is not None and len(v.objs) == 1 and eng.constval(v, None) is True
  return out, und, how, n[0]
def val(eng, x, st):
  if isinstance(x, list): return eng.mklist('list', None, [eng.mk_const(y) for y in x], st)
  return eng.mk_const(x)

def run(rep):
  eng = R.engine()
  try:
    p = setup(eng)
    work(rep, eng, p)
  finally: eng.tm = None; eng.libcall = None

def work(rep, eng, p):
  def go(item):
    f, d, kw, fail = item
    facts, und, how, n = save(eng, p, f, d, kw, fail)
    if facts and not fail: facts, und, how, n = save(eng, p, f, d, kw, fail, facts)      # and which of these hold on every path
    return facts, sorted(und), how, n
  todo = [(f, d, kw, None) for f, d, kw in RUNS] + [('nc_save', 'plain', dict(PLAIN, compress=True), x) for x in FAIL]
  calls = [0]; undecided = {}; checked = [0]
  def bad(f, key, text): rep.add('saved', '%s|%s' % (f, key), text, FILE[f])
  for (f, d, kw, fail), (facts, und, how, n) in R.parallel(go, todo):
    calls[0] += n
    what = '%s of %s%s' % (f, d, ''.join(', %s=%r' % x for x in sorted(kw.items())))
    key = '%s|%s' % (d, ','.join('%s=%r' % x for x in sorted(kw.items())))
    if fail:
      if facts is None or how == 'budget': undecided['%s fails' % fail] = 1; continue
      checked[0] += 1
      if how == 'done': bad(f, 'failure|' + fail, 'a save returns normally although %s failed' % fail)
      continue
    if facts is None or how != 'done': undecided[what + ': ' + how] = 1; continue
    for u in und: undecided['%s: %s' % (what, u)] = 1
    vs, dims, g = WANT[d]
    for pre in ('north/', 'south/') if d == 'groups' else ('',):
      def need(fam, text, *k):
        checked[0] += 1
        v = facts.get(k)
        if v: return True
        if v is None and fam in und: return False
        if v is False and d in ('coded', 'stations'): undecided['%s: %s on some paths' % (what, text)] = 1; return True
        bad(f, '%s|%s' % (key, '|'.join(map(str, k))), 'saving %s: %s%s' % (what, text, '' if v is None else ' on some paths'))
        return False
      for x in dims: need('dimension', 'dimension %s is not defined' % x, 'dim', pre + x)
      for k in g: attribute(need, facts, 'the dataset', pre, k, g[k])
      for name, atts, src in vs:
        if src and d == 'groups' and pre == 'south/': src = {'p': 'q', 'q': 'p'}.get(src, src)
        at = pre + name
        if not need('variable', '%s is not defined' % at, 'var', at): continue
        rk = [k[2] for k in facts if k[:2] == ('rank', at)]
        if rk and set(rk) != {1 if d == 'stations' and name == 'second' else RANK[name]}: bad(f, '%s|rank|%s' % (key, at), 'saving %s: %s is defined with %s dimensions' % (what, at, rk))
        for k in atts: attribute(need, facts, at, at, k, atts[k])
        if ('data', at, 'all') in facts: need('data', 'the values of %s are not written' % at, 'data', at, 'all')
        elif RANK[name] == 0: need('data', 'the value of %s is not written' % at, 'data', at, 'all')
        else:
          for i in (0, 1): need('data', 'part %d of the values of %s is not written' % (i, at), 'data', at, 'piece:%d' % i)
          for k, t in (('unpieced', 'the same values are written to every part of %s'), ('misplaced', 'a part of %s is written to a fixed place'), ('mixed', 'values of another part are written to a part of %s')):
            if (k, at) in facts: bad(f, '%s|%s|%s' % (key, k, at), 'saving %s: %s' % (what, t % at))
        if ('source', at, src) not in facts and any(k[:2] == ('data', at) for k in facts): bad(f, '%s|source|%s' % (key, at), 'saving %s: what is written to %s is not its values' % (what, at))
  whole = covering(rep, eng, p, undecided)
  rep.floor('library_calls', calls[0], 400)
  rep.floor('facts_checked', checked[0], 300)
  rep.coverage['undecided'] = sorted(undecided)[:40]
  rep.coverage['undecided_count'] = len(undecided)
  rep.assumptions = ['the netCDF library and the netCDF4 module store what they are given', 'a region is read as asked (C25)']
  rep.explanation = 'Datasets saved through each writer and option; every variable, axis, dimension, attribute and part of the data must reach the library on every path, and a failure the library reports must not end in a normal return.'

def attribute(need, facts, who, at, k, v):
  if need('attribute', 'attribute %s of %s is not written' % (k, who), 'att', at, k) and v != 1:
    need('attribute', 'attribute %s of %s is not written with its value' % (k, who), 'attval', at, k, v)

SHAPES = [((5,), 2, None), ((5,), 5, None), ((5,), 100, None), ((1,), 1, None), ((5, 3), 4, None), ((5, 3), 3, None), ((5, 3), 1, None), ((5, 3), 7, None), ((2, 3, 4), 5, None), ((2, 3, 4), 9, None), ((2, 3, 4), 13, None),
          ((2, 3, 4), 5, [1]), ((2, 3, 4), 2, [2]), ((2, 3, 4), 100, [0, 2]), ((4, 5), 11, [0])]
def covering(rep, eng, p, undecided):
  """The parts a variable is read in cover every element exactly once."""
  mo = eng.intern.get(('module', 'pygeode'))
  def plain(v, st):
    c = eng.constval(v, p)
    if c is not p: return c
    q = [eng.seq(x, st) for x in v.objs]
    return [plain(x, st) for x in q[0]] if len(q) == 1 and q[0] is not None else None
  def go(item):
    shape, size, keep = item
    got = []
    def view(eng, st, o, args, kw, node):
      got.append(plain(args[1], st) if len(args) > 1 and not kw else None)
      return eng.mklist('tuple', node, list(args), st, tag=('view', len(got)))
    p.opaque = {k: f for k, f in p.opaque.items() if k != 'pygeode.view.View.loop_mem'}
    p.opaque['pygeode.view.View'] = view
    st = p.st.copy()
    eng.setf(st, mo, 'MAX_ARRAY_SIZE', eng.mk_const(size))
    ls = lambda x, t: eng.mklist('list', None, [eng.mk_const(n) for n in x], st, tag=t)
    eng.exactnp = True
    try: r, st, how = p.call('parts', [ls(shape, 'shape'), eng.NONE if keep is None else ls(keep, 'keep')], st=st)
    finally: eng.exactnp = False
    return got, how
  n = 0
  for (shape, size, keep), (got, how) in R.parallel(go, SHAPES):
    ok = how == 'done' and all(isinstance(g, list) and len(g) == len(shape) and all(isinstance(x, list) and all(isinstance(i, int) for i in x) for x in g) for g in got)
    if not ok: undecided['the parts of a variable of shape %s, %s at a time' % (shape, size)] = 1; continue
    n += 1
    seen = {}
    for g in got:
      for ix in itertools.product(*g): seen[ix] = seen.get(ix, 0) + 1
    want = set(itertools.product(*map(range, shape)))
    if set(seen) != want or any(k > 1 for k in seen.values()):
      rep.add('parts', '%s|%s|%s' % (shape, size, keep), 'a variable of shape %s read %d values at a time%s: %d of %d elements are in no part, %d in several' % (shape, size, '' if keep is None else ' keeping axes %s whole' % keep, len(want - set(seen)), len(want), sum(k > 1 for k in seen.values())), 'pygeode/view.py')
    for i in keep or ():
      if any(len(g[i]) != shape[i] for g in got): rep.add('parts', 'kept|%s|%s|%s' % (shape, size, keep), 'a variable of shape %s keeping axes %s whole: axis %d is divided' % (shape, keep, i), 'pygeode/view.py')
  rep.coverage['part_lists_decided'] = n
