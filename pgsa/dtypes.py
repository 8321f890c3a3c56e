"""A model of numpy array types and of ctypes cells, for checks that follow which type an array has.

An array carries the name of its type when every path that made it says so; `~name` is the same type in an unknown
byte order or layout (an array that came from the user)."""
import numpy
from .engine import AV, _MISSING

CREATE = {'empty': 1, 'zeros': 1, 'ones': 1, 'full': 2, 'asarray': 1, 'array': 1, 'ascontiguousarray': 1, 'asanyarray': 1, 'require': 1,
          'fromiter': 1, 'frombuffer': 1, 'fromstring': 1, 'empty_like': 1, 'zeros_like': 1, 'ones_like': 1, 'arange': 9, 'asfortranarray': 1}
CELLS = ('c_int', 'c_long', 'c_short', 'c_uint', 'c_size_t', 'c_int32', 'c_int64', 'c_longlong', 'c_ulong', 'c_double', 'c_float', 'c_uint32', 'c_byte', 'c_int16')

def canon(x):
  """The name of a type given as a string or as a numpy attribute."""
  if x.startswith('~'): return x
  try: return numpy.dtype(x).name
  except Exception: pass
  try: return numpy.dtype(getattr(numpy, x)).name
  except Exception: pass
  if x.startswith('bytes') and x[5:].isdigit(): return x
  return None

class Types:
  def __init__(self): self.cell = None
  def name(self, eng, v):
    """Type name of a value used as a dtype."""
    c = eng.constval(v, _MISSING)
    if isinstance(c, str): return canon(c)
    if len(v.objs) != 1: return None
    o = next(iter(v.objs))
    if o.kind == 'ext':
      n = o.info['name']
      if n.startswith('numpy.'): return canon(n[6:])
      if n in ('builtins.int', 'builtins.float', 'builtins.bool', 'builtins.complex'): return numpy.dtype(getattr(__builtins__, n[9:]) if not isinstance(__builtins__, dict) else __builtins__[n[9:]]).name
    return None
  def of(self, eng, v, st):
    """Type name of an array."""
    r = set()
    for o in v.objs:
      f = eng.getf(st, o, 'dt') if o.kind in ('arr', 'sym') else None
      if f is not None:
        c = eng.constval(f, None)
        r.add(c if isinstance(c, str) else None)
      elif o.kind == 'const' and isinstance(o.info['value'], (bool, int, float)): r.add(numpy.asarray(o.info['value']).dtype.name)
      elif o.kind in ('list', 'tuple'):
        q = eng.seq(o, st)
        if not q: r.add(None)
        for x in q or (): r.add(self.of(eng, x, st))
      else: r.add(None)
    return r.pop() if len(r) == 1 else None
  def put(self, eng, v, name, st):
    for o in v.objs:
      if o.kind in ('arr', 'sym'): eng.setf(st, o, 'dt', eng.mk_const(name) if name else eng.scalar())
    return v
  def make(self, eng, node, labs, st, tag, name):
    r = eng.mkarr(node, labs, st, tag=('dt', tag, name))
    return self.put(eng, r, name, st)
  def call(self, eng, name, pa, kw, node, st, labs):
    if name.startswith('ctypes.'):
      n = name[7:]
      if n in ('byref', 'pointer', 'addressof', 'POINTER') and len(pa) >= 1: return pa[0]
      if n in CELLS and self.cell is not None and len(pa) <= 1:
        o = eng.alloc('inst', node, st, tag=('cell', n)); o.info['cls'] = self.cell
        eng.setf(st, o, 'value', pa[0] if pa else eng.mk_const(0))
        return eng.av(o, labs)
      return None
    if not name.startswith('numpy.'): return None
    n = name[6:]
    if n == 'dtype' and len(pa) == 1:
      k = self.name(eng, pa[0])
      return eng.ext('numpy.' + k) if k else None
    if n in CREATE:
      i = CREATE[n]
      d = kw.get('dtype', pa[i] if len(pa) > i else None)
      if d is not None and eng.constval(d, 0) is None: d = None
      conv = n in ('asarray', 'array', 'ascontiguousarray', 'asanyarray', 'require', 'asfortranarray')
      if d is not None:
        k = self.name(eng, d)
        # a conversion to a type given by a plain name or code is one to the machine's own byte order
        if k and k.startswith('~') and n in ('empty', 'zeros', 'ones', 'full'): return self.make(eng, node, labs, st, n, k)
        return self.make(eng, node, labs, st, n, k)
      if conv and len(pa) >= 1:
        k = self.of(eng, pa[0], st)
        if k is None: return None
        if all(o.kind in ('arr', 'sym') for o in pa[0].objs): return None      # the same array
        return self.make(eng, node, labs, st, n, k)
      if n in ('empty', 'zeros', 'ones'): return self.make(eng, node, labs, st, n, 'float64')
      if n.endswith('_like') and pa: return self.make(eng, node, labs, st, n, self.of(eng, pa[0], st))
    return None
  def attr(self, eng, o, name, st):
    if o.kind in ('arr', 'sym') and name == 'dtype':
      f = eng.getf(st, o, 'dt')
      c = eng.constval(f, None) if f is not None else None
      if isinstance(c, str): return eng.ext('numpy.' + c)
    if o.kind == 'ext' and o.info['name'].startswith('numpy.') and name in ('name', 'kind', 'itemsize', 'char', 'type', 'str', 'newbyteorder', 'isnative'):
      c = canon(o.info['name'][6:])
      if c is None: return None
      d = numpy.dtype(c.lstrip('~') if not c.lstrip('~').startswith('bytes') else 'S%d' % (int(c.lstrip('~')[5:]) // 8))
      if name == 'name': return eng.mk_const(c.lstrip('~'))
      if name == 'type': return eng.ext('numpy.' + c.lstrip('~'))
      if name == 'kind': return eng.mk_const(d.kind)
      if name == 'itemsize': return eng.mk_const(d.itemsize)
      if name == 'char': return eng.mk_const(d.char)
      if name in ('str', 'isnative') and not c.startswith('~'): return eng.mk_const(getattr(d, name))
      return eng.scalar()
    return None
  def method(self, eng, o, name, pa, kw, node, st, labs):
    if name == 'astype':
      d = kw.get('dtype', pa[0] if pa else None)
      k = self.name(eng, d) if d is not None else None
      return self.make(eng, node, labs, st, 'astype', k)
    if name == 'view' and pa:
      return self.make(eng, node, labs, st, 'view', self.name(eng, pa[0]))
    if name in ('copy', 'flatten'):
      return self.make(eng, node, labs, st, name, self.of(eng, eng.av(o), st))
    return None
  bare = ()      # attributes that say nothing of an array's values
  def compared(self, labs):
    """Labels of the outcome of a comparison."""
    return labs
  def same(self, eng, a, b):
    """Whether two values used as types are equal, when both are plain and known."""
    if not all(len(v.objs) == 1 for v in (a, b)): return None
    if not any(o.kind == 'ext' and o.info['name'].startswith('numpy.') for v in (a, b) for o in v.objs): return None
    x, y = self.name(eng, a), self.name(eng, b)
    if x is None or y is None: return None
    if x.lstrip('~') != y.lstrip('~'): return False
    return None if '~' in x + y else True
