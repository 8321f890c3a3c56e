"""Normal forms of the symbolic value terms the engine records: two terms with one normal form compute the same values."""
import math

CASTS = ('numpy.asarray', 'numpy.array', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.require', 'numpy.copy', 'numpy.asfarray', 'copy.copy', 'numpy.atleast_1d', 'numpy.float64', 'builtins.float')
BIN = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Div': 'divide', 'Pow': 'power', 'Mod': 'mod', 'FloorDiv': 'floor_divide'}
DUNDER = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'divide', 'div': 'divide', 'pow': 'power', 'mod': 'mod', 'floordiv': 'floor_divide'}
CMP = {'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal', 'eq': 'equal', 'ne': 'not_equal'}
CMPOP = {'Lt': 'less', 'LtE': 'less_equal', 'Gt': 'greater', 'GtE': 'greater_equal', 'Eq': 'equal', 'NotEq': 'not_equal'}
SWAPPED = {'greater': 'less', 'greater_equal': 'less_equal'}
UN = {'abs': 'absolute', 'neg': 'negative', 'pos': 'positive'}
ALIAS = {'abs': 'absolute', 'fabs': 'absolute', 'true_divide': 'divide', 'remainder': 'mod', 'conjugate': 'conj', 'radians': 'deg2rad', 'degrees': 'rad2deg', 'amax': 'max', 'amin': 'min', 'product': 'prod',
  'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2', 'acosh': 'arccosh', 'asinh': 'arcsinh', 'atanh': 'arctanh', 'multiply.reduce': 'prod', 'add.reduce': 'sum'}

def num(t):
  if t[0] == 'c' and isinstance(t[2], (int, float)) and not isinstance(t[2], bool): return float(t[2])
  if t in (('ext', 'math.pi'), ('ext', 'numpy.pi')): return math.pi
  return None

def fname(n):
  """Canonical (function, reversed) for a dotted callable name."""
  if n.startswith('builtins.'): n = n[9:]
  for p in ('numpy.ndarray.', 'operator.'):
    if n.startswith(p):
      d = n[len(p):]
      if d.startswith('__') and d.endswith('__'): d = d[2:-2]
      d = d.rstrip('_')
      if d in CMP: return CMP[d], False
      if d in UN: return UN[d], False
      if d in DUNDER: return DUNDER[d], False
      if d.startswith('r') and d[1:] in DUNDER: return DUNDER[d[1:]], True
      return ALIAS.get(d, d), False
  for p in ('numpy.', 'math.', 'builtins.'):
    if n.startswith(p): n = n[len(p):]; break
  return ALIAS.get(n, n), False

def product(fs, coef):
  out = {}
  for f, e in fs:
    if f[0] == 'prod*':
      coef *= f[1] ** e
      for g, h in f[2]: out[g] = out.get(g, 0) + h * e
    else: out[f] = out.get(f, 0) + e
  items = tuple(sorted(((g, h) for g, h in out.items() if h), key=repr))
  if not items: return ('num', float('%.10g' % coef))
  if coef == 1.0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
  return ('prod*', float('%.10g' % coef), items)

def asprod(t):
  if t[0] == 'num': return (), t[1]
  if t[0] == 'prod*': return t[2], t[1]
  return ((t, 1),), 1.0

def norm(t):
  """Normal form: casts dropped, operators named, constant factors collected."""
  if not isinstance(t, tuple) or not t: return t
  v = num(t)
  if v is not None: return ('num', v)
  h = t[0]
  if h == 'call':
    n = t[1]
    if n in CASTS and len(t) > 2: return norm(t[2])
    f, rev = fname(n)
    args = [norm(x) for x in t[2:]]
    if rev and len(args) == 2: args = args[::-1]
    return apply(f, args)
  if h == 'meth':
    f = ALIAS.get(t[1], t[1])
    if f in ('copy', 'astype', 'view', 'squeeze', 'ravel'): return norm(t[2])
    if f.startswith('__'): f, rev = fname('numpy.ndarray.' + f)
    else: rev = False
    args = [norm(x) for x in t[2:]]
    if rev and len(args) == 2: args = args[::-1]
    return apply(f, args)
  if h.startswith('b') and h[1:] in BIN: return apply(BIN[h[1:]], [norm(x) for x in t[1:]])
  if h.startswith('u'):
    m = {'USub': 'negative', 'UAdd': 'positive', 'Not': 'logical_not', 'Invert': 'invert'}.get(h[1:])
    if m: return apply(m, [norm(t[1])])
  if h in ('cmp', 'compare') and len(t) == 4 and t[1] in CMPOP: return apply(CMPOP[t[1]], [norm(t[2]), norm(t[3])])
  return tuple(norm(x) if isinstance(x, tuple) else x for x in t)

def apply(f, a):
  if f in SWAPPED and len(a) == 2: return apply(SWAPPED[f], a[::-1])
  if f == 'multiply' and len(a) == 2:
    (p, c), (q, d) = asprod(a[0]), asprod(a[1])
    return product(list(p) + list(q), c * d)
  if f == 'divide' and len(a) == 2:
    (p, c), (q, d) = asprod(a[0]), asprod(a[1])
    if d: return product(list(p) + [(g, -e) for g, e in q], c / d)
  if f == 'deg2rad': return apply('multiply', [a[0], ('num', math.pi / 180)])
  if f == 'rad2deg': return apply('multiply', [a[0], ('num', 180 / math.pi)])
  if f == 'negative' and len(a) == 1:
    p, c = asprod(a[0]); return product(list(p), -c)
  if f == 'positive' and len(a) == 1: return a[0]
  if f == 'add' and len(a) == 2:
    xs = []
    for x in a: xs += list(x[1]) if x[0] == 'sum*' else [x]
    xs = [x for x in xs if x != ('num', 0.0)]
    if len(xs) == 1: return xs[0]
    return ('sum*', tuple(sorted(xs, key=repr)))
  if f == 'subtract' and len(a) == 2: return apply('add', [a[0], apply('negative', [a[1]])])
  if f in ('equal', 'not_equal', 'minimum', 'maximum') and len(a) == 2: a = sorted(a, key=repr)
  return (f,) + tuple(a)
