"""C12: no failure reported by a file library is ignored.

The readers and writers that call the netCDF and HDF4 libraries are run abstractly with one library routine at a time
reporting failure (with every sign of code that library uses) and all others success.  An operation that can still
return normally on a path where the failing routine was called has ignored the failure."""
import re, ast
from .. import probe, runner as R
from ..engine import AV, where
from ..report import Broken

SRC = '''
def nc_open(f):
  from pygeode.formats import netcdf
  return netcdf.open('file.nc')
def nc_file(f):
  from pygeode.formats import netcdf
  h = netcdf.NCFile('file.nc')
  h.open()
  h.close()
  return h
def nc_file_close(f):
  from ctypes import c_int
  from pygeode.formats import netcdf
  h = netcdf.NCFile('file.nc')
  h.fileid = c_int(f)
  h.close()
  return h
def nc_attributes(f, n):
  from pygeode.formats import netcdf
  return netcdf.get_attributes(f, n)
def nc_attributes_global(f):
  from pygeode.formats import netcdf
  return netcdf.get_attributes(f, -1)
def nc_attributes_var(f):
  from pygeode.formats import netcdf
  return netcdf.get_attributes(f, 2)
def nc_dim(f, n):
  from pygeode.formats import netcdf
  return netcdf.NCDim.from_id(f, n)
def nc_var(f, n):
  from pygeode.formats import netcdf
  return netcdf.NCVar(f, n)
def nc_read(f, start, count):
  from pygeode.formats import netcdf
  v = netcdf.NCVar(f, 0)
  return v.getvalues(start, count)
def nc_load(f, start, count, t, out):
  from pygeode.formats import netcdf
  return netcdf.load_values(f, 0, t, start, count, out)
def nc_put_text(f):
  from pygeode.formats import netcdf
  netcdf.put_attributes(f, -1, {'a': 'text'}, 3)
  return 1
def nc_put_number(f, x):
  from pygeode.formats import netcdf
  netcdf.put_attributes(f, 0, {'a': x, 'b': 2.5, 'c': 7}, 4)
  return 1
def data(x):
  from pygeode.axis import Lat, NamedAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  la = Lat([1., 2.], name='lat'); n = NamedAxis([1., 2., 3.], name='rec')
  return Dataset([Var((la, n), values=x, name='a', atts={'u': 'm'})], atts={'own': 'attribute'})
def nc_save3(f, x):
  from pygeode.formats import netcdf
  netcdf.save('file.nc', data(x), version=3, cfmeta=False)
  return 1
def nc_save4(f, x):
  from pygeode.formats import netcdf
  netcdf.save('file.nc', data(x), version=4, cfmeta=False)
  return 1
def nc_save_compress(f, x):
  from pygeode.formats import netcdf
  netcdf.save('file.nc', data(x), compress=True, cfmeta=False)
  return 1
def nc_save_unlimited(f, x):
  from pygeode.formats import netcdf
  netcdf.save('file.nc', data(x), unlimited='rec', cfmeta=False)
  return 1
def nc_save_any(f, ds):
  from pygeode.formats import netcdf
  netcdf.save('file.nc', ds)
  return 1
def h_open(f):
  from pygeode.formats import hdf4
  return hdf4.open('file.hdf')
def h_file(f):
  from pygeode.formats import hdf4
  return hdf4.HDF4_File('file.hdf')
def h_sd(f, n):
  from pygeode.formats import hdf4
  return hdf4.HDF4_SD(f, n)
def h_dim(f):
  from pygeode.formats import hdf4
  return hdf4.get_dim_info(f)
def h_attributes(f, n):
  from pygeode.formats import hdf4
  return hdf4.get_attributes(f, n)
def h_load(f, start, count, out):
  from pygeode.formats import hdf4
  return hdf4.load_values(f, start, count, out)
def h_var(f, x):
  from pygeode.formats import hdf4
  v = hdf4.HDF4_Var(f, x)
  return v.getvalues([0], [1])
def close_file(f):
  from pygeode.formats import hdf4
  h = hdf4.HDF4_File('file.hdf')
  h.__del__()
  return 1
'''
ENTRIES = [l.split('(')[0] for l in SRC.split('def ')[1:] if not l.startswith('data(')]
MODULES = ('pygeode.formats.netcdf', 'pygeode.formats.hdf4')
# what a routine returns: success, and the values that stand for failure
IDS = ('SDstart', 'SDselect', 'SDgetdimid', 'SDcreate', 'SDnametoindex')
YESNO = ('SDiscoordvar', 'SDisrecord', 'SDcheckempty')        # answers, not status codes
def outcome(name):
  if name in ('nc_strerror', 'nc_inq_libvers', 'HEstring', 'HEvalue', 'HEprint') + YESNO: return None, ()
  if name.startswith('nc_'): return 0, (-33, 28)              # its own codes are negative, those of the system positive
  if name in IDS: return 1, (-1,)
  if name.startswith(('SD', 'H', 'V')): return 0, (-1,)
  return 0, (-1, 1)
def special(eng):
  """Codes the modules compare something with: each may be singled out."""
  out = set()
  for m in MODULES:
    tree = eng.prog.modules[m].tree
    named = {}
    for n in tree.body:
      if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name): named[n.targets[0].id] = n.value
    for n in ast.walk(tree):
      if not isinstance(n, ast.Compare): continue
      for x in [n.left] + n.comparators:
        for y in x.elts if isinstance(x, (ast.Tuple, ast.List, ast.Set)) else [x]:
          if isinstance(y, ast.Name): y = named.get(y.id, y)
          try: v = ast.literal_eval(y)
          except Exception: continue
          for w in v if isinstance(v, (tuple, list, set)) else [v]:
            if type(w) is int and w not in (0, 1, -1) and abs(w) < 200: out.add(w)
  return sorted(out)
TYPES = re.compile(r'_(schar|text|short|int|float|double|uchar|ushort|uint|longlong|ulonglong|long|ubyte|string)$')
def family(n): return TYPES.sub('', n)

def run(rep):
  eng = R.engine()
  found = {}                      # (entry, family) -> [failure codes], with where it is called
  lib = lambda eng, st, o, args, kw, node: eng.sym('LIB:%s' % (eng.constval(args[0], 'lib') if args else 'lib'))
  for m in MODULES: eng.modstate.pop(m, None)
  axisconf = lambda *a: eng.NONE
  same = lambda eng, st, o, args, kw, node: args[0] if args and isinstance(args[0], AV) else None
  op = dict(eng.cutsets[1])
  op.update({'pygeode.libhelper.load_lib': lib, 'pygeode.axis.Axis._readaxisconfig': axisconf,
             'pygeode.formats.finalize_open': same, 'pygeode.formats.finalize_save': same})
  src = SRC + ''.join('import %s\n' % m for m in MODULES)
  p = probe.Probe(eng, src, opaque=op)
  for m in MODULES:
    # a library that could not be loaded is another matter
    mo = eng.intern.get(('module', m))
    for k, v in list(eng.fields(p.st, mo).items()) if mo is not None else ():
      if isinstance(v, AV) and any(o.kind == 'sym' and o.info['path'].startswith('LIB:') for o in v.objs): eng.setf(p.st, mo, k, AV(frozenset(o for o in v.objs if o.kind == 'sym'), v.labs))
  mark = eng.obj('scalar', ('pgsa-failed',))
  calls = {}
  def libcall(failing, code):
    def h(eng, o, args, kw, node, st):
      name = o.info['path'].split('.')[-1]
      if '[' in name or '(' in name: return None
      good, bad = outcome(name)
      if good is None: return eng.scalar()
      calls.setdefault(family(name), set()).add((where(node), name))
      if failing == family(name):
        eng.setf(st, mark, 'failed', eng.mk_const(True))
        return eng.mk_const(code)
      return eng.mk_const(good)
    return h
  def argsof(f):
    fo = next(iter(eng.getf(p.st, p.mo, f).objs))
    t = {'f': 'any', 'x': 'arr', 'n': 'int', 't': 'int', 'start': 'list:int', 'count': 'list:int', 'out': 'arr', 'ds': 'Dataset'}
    return [eng.sym(a.arg, t[a.arg]) for a in fo.info['node'].args.args]
  def attempt(f, failing, code):
    calls.clear()
    eng.libcall = libcall(failing, code)
    try: r, st, how = p.call(f, argsof(f), salt=3)
    finally: eng.libcall = None
    v = eng.getf(st, mark, 'failed')
    return how, how == 'done' and v is not None, {k: sorted(x) for k, x in calls.items()}
  more = tuple(special(eng))
  def codes(name):
    bad = outcome(name)[1]
    return tuple(dict.fromkeys(bad + more)) if name.startswith('nc_') and bad else bad
  def go(i):
    f = ENTRIES[i]
    how, bad, seen = attempt(f, None, 0)
    out = []; n = 0
    for fam in sorted(seen):
      name = seen[fam][0][1]
      for code in codes(name):
        how2, bad, seen2 = attempt(f, fam, code)
        if how2 == 'budget': continue
        n += 1
        if bad: out.append((f, fam, code, seen[fam]))
    return how, n, out, seen
  tot = 0; sites = set(); ended = {}
  for i, (how, n, out, seen) in R.parallel(go, list(range(len(ENTRIES)))):
    tot += n; ended[ENTRIES[i]] = how
    for fam, x in seen.items(): sites |= {(fam, w) for w, nm in x}
    for f, fam, code, at in out:
      rep.add('ignored', '%s|%s' % (fam, code if code in more else 'positive' if code > 0 else 'negative'), 'when %s fails (code %d) in %s, the operation can still return normally' % (fam, code, WHAT(f)), ', '.join(w for w, nm in at))
  rep.samples = ['%s at %s' % s for s in sorted(sites)][:12]
  rep.floor('library_call_sites', len(sites), 18)
  rep.floor('failures_followed', tot, 40)
  rep.coverage['operations_completed'] = sum(1 for v in ended.values() if v == 'done')
  rep.coverage['failure_codes'] = sorted({-33, 28, -1} | set(more))
  rep.coverage['library_routines'] = len({s[0] for s in sites})
  rep.assumptions = ['%s: %s' % (k, v) for k, v in ended.items() if v != 'done']
  rep.explanation = 'One routine of the file libraries failing at a time; no path through the operation may then return normally.'

def WHAT(f):
  for line in SRC.split('def ')[1:]:
    if line.startswith(f + '('):
      t = [x.strip() for x in line.split('\n') if 'netcdf.' in x or 'hdf4.' in x]
      return t[-1].replace('return ', '') if t else f
  return f
