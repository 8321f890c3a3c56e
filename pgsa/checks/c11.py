"""C11: external type codes, routines and array types agree.

The netCDF and HDF4 readers and writers and the OPeNDAP transfer routines are run abstractly for every type code and
every array type; each call of the library is an obligation: its routine, its type code and the type of its buffer
must stand for the same values."""
import numpy
from .. import probe, runner as R
from ..dtypes import Types
from ..engine import AV, where
from ..report import Broken

SRC = '''
class Cell: pass
def nc_att(f):
  from pygeode.formats import netcdf
  return netcdf.get_attributes(f, 2)
def nc_global_att(f):
  from pygeode.formats import netcdf
  return netcdf.get_attributes(f, -1)
def nc_var(f):
  from pygeode.formats import netcdf
  return netcdf.NCVar(f, 0)
def nc_read(f):
  from pygeode.formats import netcdf
  v = netcdf.NCVar(f, 0)
  return v.getvalues([0], [3])
def nc_load(f, code):
  from pygeode.formats import netcdf
  return netcdf.load_values(f, 0, code, [0], [3])
def data(x, y):
  from pygeode.axis import DummyAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  return Dataset([Var((DummyAxis(3, name='rec'),), values=x, name='a', atts={'u': y})], atts={'own': y})
def nc_save(f, x, y, version):
  from pygeode.formats import netcdf
  netcdf.save('file.nc', data(x, y), version=version, cfmeta=False)
  return 1
def nc_save_axis(f, x, y, version):
  from pygeode.axis import XAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  from pygeode.formats import netcdf
  netcdf.save('file.nc', Dataset([Var((XAxis(x, name='x'),), values=x, name='a', atts={'u': y})]), version=version, cfmeta=False)
  return 1
def nc_put(f, y, version):
  from pygeode.formats import netcdf
  netcdf.put_attributes(f, 0, {'u': y}, version)
  return 1
def nc_put_global(f, y, version):
  from pygeode.formats import netcdf
  netcdf.put_attributes(f, -1, {'u': y}, version)
  return 1
def h_att(f):
  from pygeode.formats import hdf4
  return hdf4.get_attributes(f, 1)
def h_var(f, a):
  from pygeode.formats import hdf4
  return hdf4.HDF4_Var(hdf4.HDF4_SD(f, 0), [a])
def h_read(f, a):
  from pygeode.formats import hdf4
  return hdf4.HDF4_Var(hdf4.HDF4_SD(f, 0), [a]).getvalues([0], [3])
def dap_type(x):
  from pygeode.axis import XAxis
  from pygeode.formats import opendap
  return opendap.np2dap[x.dtype.name]
def dap_back(x):
  from pygeode.formats import opendap
  return opendap.dap2np[opendap.np2dap[x.dtype.name].lower()]
def dap_write(f, x):
  from pygeode.axis import DummyAxis
  from pygeode.var import Var
  from pygeode.formats import opendap
  return opendap.write_xdr(Var((DummyAxis(3, name='rec'),), values=x, name='a'), f)
'''
NC = {1: 'int8', 2: 'bytes8', 3: 'int16', 4: 'int32', 5: 'float32', 6: 'float64', 7: 'uint8', 8: 'uint16', 9: 'uint32', 10: 'int64', 11: 'uint64'}
MEM = {'schar': 'int8', 'text': 'bytes8', 'short': 'int16', 'int': 'int32', 'float': 'float32', 'double': 'float64', 'uchar': 'uint8',
       'ushort': 'uint16', 'uint': 'uint32', 'longlong': 'int64', 'ulonglong': 'uint64', 'ubyte': 'uint8', 'long': 'int64'}
HDF = {20: 'int8', 21: 'uint8', 22: 'int16', 23: 'uint16', 24: 'int32', 25: 'uint32', 5: 'float32', 6: 'float64'}
DAP = {'Byte': 'uint8', 'Int16': 'int16', 'UInt16': 'uint16', 'Int32': 'int32', 'UInt32': 'uint32', 'Float32': 'float32', 'Float64': 'float64', 'String': 'bytes8'}
NATIVE = {'int8toStr': ('int8', 'uint8'), 'int32toStr': ('int32', 'uint32'), 'float32toStr': ('float32',), 'float64toStr': ('float64',)}
TYPES = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64', 'bytes8')
def dt(n): return numpy.dtype('S1' if n == 'bytes8' else n)
def holds(t, d):
  """Every value of array type d is a value of t."""
  return t == d or ('bytes8' not in (t, d) and bool(numpy.can_cast(dt(d), dt(t), 'safe')) and not (dt(t).kind == 'f' and dt(d).kind in 'iu' and dt(d).itemsize * 8 > (24 if t == 'float32' else 53)))
def best(t, d, avail):
  """Is t the type to use for d among those the format has?"""
  if d in avail: return t == d
  if any(holds(x, d) for x in avail): return holds(t, d)
  return t == 'float64'             # nothing holds a 64-bit integer exactly: the widest type there is
class Run:
  """One program run with given types, and the library calls it makes."""
  def __init__(self): self.calls = []

def run(rep):
  eng = R.engine()
  mods = ('pygeode.formats.netcdf', 'pygeode.formats.hdf4', 'pygeode.formats.opendap')
  for m in mods: eng.modstate.pop(m, None)
  same = lambda eng, st, o, args, kw, node: args[0] if args and isinstance(args[0], AV) else None
  op = dict(eng.cutsets[1])
  op.update({'pygeode.libhelper.load_lib': lambda eng, st, o, args, kw, node: eng.sym('LIB:lib'), 'pygeode.axis.Axis._readaxisconfig': lambda *a: eng.NONE,
             'pygeode.formats.finalize_open': same, 'pygeode.formats.finalize_save': same, 'pygeode.tools.point': same,
             'pygeode.progress.PBar.__init__': lambda *a: eng.NONE})
  tm = Types()
  eng.tm = tm
  try: work(rep, eng, tm, op, mods)
  finally: eng.tm = None; eng.libcall = None

def work(rep, eng, tm, op, mods):
  p = probe.Probe(eng, SRC + ''.join('import %s\n' % m for m in mods), opaque=op)
  tm.cell = next(iter(eng.getf(p.st, p.mo, 'Cell').objs))
  for m in mods:
    mo = eng.intern.get(('module', m))
    if mo is None: raise Broken('%s was not loaded' % m)
    for k, v in list(eng.fields(p.st, mo).items()):
      if isinstance(v, AV) and any(o.kind == 'sym' and o.info['path'].startswith('LIB:') for o in v.objs): eng.setf(p.st, mo, k, AV(frozenset(o for o in v.objs if o.kind == 'sym'), v.labs))
  def attempt(f, code=None, d=None, **more):
    calls = []
    def cell(v, x, st):
      for o in v.objs:
        if o.kind == 'inst': eng.setf(st, o, 'value', eng.mk_const(x))
    def h(eng, o, args, kw, node, st):
      name = o.info['path'].split('.')[-1]
      if '[' in name or '(' in name: return None
      av = [a for a in args if isinstance(a, AV)]
      calls.append((name, where(node), [(eng.constval(a, None), tm.of(eng, a, st)) for a in av]))
      if name in ('nc_inq_att',): cell(av[3], code, st); cell(av[4], 3, st)
      elif name == 'nc_inq_atttype': cell(av[3], code, st)
      elif name == 'nc_inq_attlen': cell(av[3], 3, st)
      elif name == 'nc_inq_var': cell(av[3], code, st); cell(av[4], 1, st); cell(av[6], 1, st)
      elif name == 'nc_inq_vartype': cell(av[2], code, st)
      elif name in ('nc_inq_natts',): cell(av[1], 1, st)
      elif name in ('nc_inq_varnatts',): cell(av[2], 1, st)
      elif name == 'SDattrinfo': cell(av[3], code, st); cell(av[4], 3, st)
      elif name == 'SDgetinfo': cell(av[2], 1, st); cell(av[4], code, st); cell(av[5], 1, st)
      elif name == 'SDdiminfo': cell(av[3], code, st); cell(av[4], 1, st)
      return eng.mk_const(1 if name in ('SDstart', 'SDselect', 'SDgetdimid') else 0)
    st = p.st.copy()
    fo = next(iter(eng.getf(st, p.mo, f).objs))
    args = []
    for a in fo.info['node'].args.args:
      if a.arg == 'code': v = eng.mk_const(code)
      elif a.arg in ('x', 'y') and a.arg in more: v = eng.mk_const(more[a.arg])
      elif a.arg in more: v = eng.mk_const(more[a.arg])
      elif a.arg in ('x', 'y'):
        v = eng.sym(a.arg, 'arr')
        tm.put(eng, v, d, st)
      elif a.arg == 'a': v = eng.sym('a', 'Axis')
      else: v = eng.sym(a.arg, 'any')
      args.append(v)
    eng.libcall = h
    try: r, st2, how = p.call(f, args, salt=3, st=st)
    finally: eng.libcall = None
    return r, st2, how, calls
  tm_attempt = attempt
  n = [0, 0]; und = {}
  def decided(what, calls, suffixed):
    """The calls of one family when the routine was chosen without doubt."""
    sites = {}
    for c in calls:
      if suffixed(c[0]): sites.setdefault(c[1], set()).add(c[0])
    for w, s in sites.items():
      if len(s) > 1: und['%s at %s' % (what, w)] = len(s)
    return [c for c in calls if suffixed(c[0]) and len(sites[c[1]]) == 1]
  def bad(key, text, at): rep.add('types', key, text, at)
  def memory(what, c, key):
    """The routine and its buffer agree."""
    t = MEM.get(c[0].rsplit('_', 1)[1]); b = c[2][-1][1]
    if t is None or b is None: und['%s %s: type of the buffer' % (what, c[0])] = 1; return t
    n[0] += 1
    if b.lstrip('~') != t: bad(key + '|buffer', '%s passes an array of %s to %s' % (what, b.lstrip('~'), c[0]), c[1])
    elif b.startswith('~'): bad(key + '|order', '%s passes an array as it was given (any byte order or layout) to %s' % (what, c[0]), c[1])
    return t
  fam = lambda pre: (lambda s: s.rsplit('_', 1)[0] in pre and s.rsplit('_', 1)[1] in MEM)
  # reading netCDF
  for code, t in sorted(NC.items()):
    for f in ('nc_att', 'nc_global_att', 'nc_var', 'nc_read', 'nc_load'):
      r, st, how, calls = attempt(f, code)
      what = 'reading type %d' % code if f in ('nc_read', 'nc_load', 'nc_var') else 'reading an attribute of type %d' % code
      key = 'read|%s|%d' % ('variable' if f in ('nc_read', 'nc_load', 'nc_var') else 'attribute', code)
      n[1] += 1
      if how != 'done': bad(key + '|refused', '%s fails' % what, 'pygeode/formats/netcdf.py') if how == 'raises' else und.__setitem__('%s %s' % (f, code), 1); continue
      for c in decided(what, calls, fam(('nc_get_att', 'nc_get_vara', 'nc_get_var', 'nc_get_vars'))):
        if c[0] == 'nc_get_att_text' and c[2][-1][1] is None: n[0] += 1; m = 'bytes8'       # a string buffer
        else: m = memory(what, c, key)
        if m is not None and m != t: bad(key + '|routine', '%s uses %s, which is for %s' % (what, c[0], m), c[1])
      if f in ('nc_read', 'nc_load') and how == 'done':
        b = tm.of(eng, r, st)
        if b is None: und['%s: result' % what] = 1
        elif b != t: bad(key + '|result', '%s gives %s' % (what, b), 'pygeode/formats/netcdf.py')
      if f == 'nc_var':
        v = eng.getf(st, next(iter(r.objs)), 'dtype')
        b = tm.name(eng, v) if v is not None else None
        if b is None: und['%s: declared type' % what] = 1
        else:
          n[0] += 1
          if b != t: bad(key + '|declared', 'a variable of type %d is declared %s' % (code, b), 'pygeode/formats/netcdf.py')
  # writing netCDF
  for version, avail in ((3, [NC[i] for i in range(1, 7)]), (4, list(NC.values()))):
    for d in TYPES + (7, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2.5):
      val = {} if isinstance(d, str) else {'y': d}
      dn = d if isinstance(d, str) else 'int64' if isinstance(d, int) else 'float64'
      for f in ('nc_put', 'nc_put_global') + (('nc_save', 'nc_save_axis') if not val else ()):
        r, st, how, calls = attempt(f, None, '~' + dn, version=version, **val)
        n[1] += 1
        what = 'saving %s to version %d' % (d, version); key = 'write|%s|%d' % (dn, version)
        if how == 'budget': und[what] = 1; continue
        if how == 'raises' and not any(x in avail for x in (dn,)) and dn == 'bytes8': continue
        defs = {}
        for c in calls:
          if c[0] == 'nc_def_var': defs.setdefault(c[1], set()).add(c[2][2][0])
        for w, s in sorted(defs.items()):
          if len(s) != 1 or None in s: und['%s: type of the variable' % what] = 1; continue
          t = NC.get(next(iter(s))); n[0] += 1
          if t not in avail or not best(t, dn, avail): bad(key + '|variable', '%s defines a variable of %s' % (what, t), w)
        codes = {x for s in defs.values() for x in s}
        for c in decided(what, calls, fam(('nc_put_vara', 'nc_put_var', 'nc_put_vars'))):
          m = memory(what, c, key)
          if m is not None and len(codes) == 1 and None not in codes and m != NC.get(next(iter(codes))) and not best(m, dn, avail):
            bad(key + '|routine', '%s uses %s' % (what, c[0]), c[1])
        for c in decided(what, calls, fam(('nc_put_att',))):
          if c[0] == 'nc_put_att_text' and len(c[2]) == 5: continue
          m = memory('an attribute: ' + what, c, key + '|attribute')
          x = c[2][3][0]
          if x is None: und['%s: type of the attribute' % what] = 1; continue
          t = NC.get(x); n[0] += 1
          small = isinstance(d, int) and t in ('int32', 'int64', 'float64') and (t != 'int32' or -2 ** 31 <= d < 2 ** 31)
          if t not in avail or not (small or best(t, dn, avail)): bad(key + '|attribute', 'an attribute: %s gives it the type %s' % (what, t), c[1])
          if m is not None and t is not None and m != t and not (small or best(m, dn, avail)): bad(key + '|attribute|routine', 'an attribute: %s uses %s' % (what, c[0]), c[1])
        if not val and dn != 'bytes8' and how == 'raises': bad(key + '|refused', '%s fails' % what, 'pygeode/formats/netcdf.py')
  # reading HDF4
  for code, t in sorted(HDF.items()):
    for f in ('h_att', 'h_var', 'h_read'):
      r, st, how, calls = attempt(f, code)
      what = 'reading HDF4 type %d' % code; key = 'hdf4|%d' % code
      n[1] += 1
      if how != 'done': bad(key + '|refused', '%s fails' % what, 'pygeode/formats/hdf4.py') if how == 'raises' else und.__setitem__('%s %s' % (f, code), 1); continue
      for c in calls:
        if c[0] not in ('SDreadattr', 'SDreaddata'): continue
        b = c[2][-1][1]
        if b is None: und['%s: buffer of %s' % (what, c[0])] = 1; continue
        n[0] += 1
        if b != t: bad(key + '|buffer', '%s reads into an array of %s' % (what, b), c[1])
      if f == 'h_var':
        v = eng.getf(st, next(iter(r.objs)), 'dtype'); b = tm.name(eng, v) if v is not None else None
        if b is None: und['%s: declared type' % what] = 1
        else:
          n[0] += 1
          if b != t: bad(key + '|declared', 'a variable of HDF4 type %d is declared %s' % (code, b), 'pygeode/formats/hdf4.py')
  # OPeNDAP
  for d in TYPES[:-1]:
    r, st, how, calls = attempt('dap_type', None, d)
    t = eng.constval(r, None) if r is not None else None
    key = 'opendap|%s' % d
    n[1] += 1
    if how == 'raises': bad(key + '|refused', '%s has no OPeNDAP type' % d, 'pygeode/formats/opendap.py'); continue
    if t is None: und['OPeNDAP type of %s' % d] = 1
    else:
      n[0] += 1
      if DAP.get(t) is None or not best(DAP[t], d, list(DAP.values())): bad(key + '|type', '%s is declared as %s' % (d, t), 'pygeode/formats/opendap.py')
    r, st, how, calls = attempt('dap_back', None, d)
    b = eng.constval(r, None) if r is not None else None
    if b is not None and t is not None:
      n[0] += 1
      if b != DAP.get(t): bad(key + '|back', '%s is read back as %s' % (t, b), 'pygeode/formats/opendap.py')
    got = []
    def on(eng, kind, node, data):
      if kind == 'extcall' and data['name'].rsplit('.', 1)[-1] in NATIVE and data['args']: got.append((data['name'].rsplit('.', 1)[-1], where(node), tm.of(eng, data['args'][0], data['st'])))
    st = p.st.copy()
    x = eng.sym('x', 'arr'); tm.put(eng, x, '~' + d, st)
    r, st2, how = p.call('dap_write', [eng.sym('f', 'any'), x], listeners=[on], st=st)
    n[1] += 1
    if how == 'raises' or (how == 'done' and not got): bad(key + '|sent', '%s cannot be sent' % d, 'pygeode/formats/opendap.py')
    names = {g[0] for g in got}
    if len(names) > 1: und['OPeNDAP transfer of %s' % d] = 1
    for g in got if len(names) == 1 else ():
      if g[2] is None: und['OPeNDAP buffer for %s' % d] = 1; continue
      n[0] += 1
      m = g[2].lstrip('~')
      if m not in NATIVE[g[0]]: bad(key + '|buffer', '%s is sent by %s from an array of %s' % (d, g[0], m), g[1])
      elif g[2].startswith('~'): bad(key + '|order', '%s is passed to %s as it was given (any byte order or layout)' % (d, g[0]), g[1])
      if t is not None and DAP.get(t) is not None and not wire(g[0], DAP[t]): bad(key + '|wire', '%s is declared as %s and sent by %s' % (d, t, g[0]), g[1])
  rep.floor('programs_run', n[1], 150)
  rep.floor('library_calls_decided', n[0], 200)
  rep.coverage['undecided'] = sorted(und)[:40]
  rep.coverage['undecided_count'] = len(und)
  rep.assumptions = ['the suffix of a netCDF routine names the type of its buffer; codes 1-11 and the HDF4 codes have their documented types']
  rep.explanation = 'Every type code and array type, through every reader and writer; each library call is compared with the type it is given.'

def wire(fn, t):
  """What a transfer routine sends is what DAP2 prescribes for the declared type: 16-bit integers go as 32-bit ones."""
  return t in {'int8toStr': ('uint8', 'int8', 'bytes8'), 'int32toStr': ('int16', 'uint16', 'int32', 'uint32'), 'float32toStr': ('float32',), 'float64toStr': ('float64',)}[fn]
