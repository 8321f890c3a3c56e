"""What the interpreter knows about Python builtins, numpy and the package's own value types."""
import ast

SYMTYPES = {
  'pygeode.var.Var': dict(name='str', units='str', formatstr='str', atts='dict', plotatts='dict', axes='tuple:Axis', naxes='int',
                          shape='tuple:int', size='int', dtype='any', values='arr', slice='any'),
  'pygeode.axis.Axis': dict(values='arr', auxarrays='dict:arr', auxatts='dict', weights='arr', name='str', units='str', atts='dict', plotatts='dict'),
  'pygeode.timeaxis.CalendarTime': dict(startdate='dict', year='arr', month='arr', day='arr', hour='arr', minute='arr', second='arr'),
  'pygeode.timeaxis.Time': dict(startdate='dict', units='str'),
  'pygeode.dataset.Dataset': dict(vars='list:Var', vardict='dict:Var', axes='list:Axis', axisdict='dict:Axis', atts='dict', name='str'),
  'pygeode.view.View': dict(axes='tuple:Axis', slices='tuple:slice', shape='tuple:int', full_axes='tuple:Axis', integer_indices='tuple:arr', size='int', force_slices='tuple:slice'),
}
EXTMODS = {'pygeode.interpcore', 'pygeode.timeaxiscore', 'pygeode.quadrulepy', 'pygeode.toolscore', 'pygeode.svdcore', 'pygeode.eofcore',
           'pygeode.formats.opendapcore', 'pygeode.formats.gribcore'}
EXTTYPES = {'builtins.dict': 'dict', 'builtins.str': 'str', 'builtins.int': 'int', 'builtins.float': 'num', 'builtins.list': 'list', 'builtins.tuple': 'tuple:any',
            'numpy.ndarray': 'arr', 'numpy.number': 'num', 'builtins.slice': 'slice'}
ARR_VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'base', 'data'}
ARR_VIEW_METHODS = {'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'view', 'diagonal', '__array__'}
ARR_MUT_METHODS = {'sort', 'fill', 'put', 'itemset', 'resize', 'partition', 'setfield', '__setitem__', '__iadd__', '__isub__', '__imul__', '__itruediv__'}
NP_VIEW = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'rollaxis', 'moveaxis',
           'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'expand_dims', 'require', 'real', 'imag', 'diagonal', 'flip', 'fliplr', 'flipud', 'asfarray', 'ma.getdata'}
NP_MUT0 = {'put', 'copyto', 'place', 'putmask', 'fill_diagonal', 'add.at', 'subtract.at', 'multiply.at', 'maximum.at', 'minimum.at', 'random.shuffle', 'put_along_axis'}
NP_BINUFUNC = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'mod', 'maximum', 'minimum', 'fmax', 'fmin', 'logical_and', 'logical_or', 'arctan2', 'hypot', 'floor_divide'}
NP_UNUFUNC = {'sqrt', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'abs', 'absolute', 'negative', 'square', 'isnan', 'floor', 'ceil', 'rint', 'sign', 'conjugate', 'conj', 'logical_not'}
LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', '__setitem__'}
DICT_MUT = {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__'}
SET_MUT = {'add', 'discard', 'update', 'remove', 'pop', 'clear'}
STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'format', 'join', 'title', 'capitalize', 'zfill', 'rjust', 'ljust', 'center', 'encode', 'decode', 'expandtabs'}

# Native routines: positions of array arguments they write
NATIVE_OUT = {}

def lab(eng, v, st): return eng.labs(v, st)

def isarr(o): return o.kind == 'arr' or (o.kind == 'sym' and o.info['type'].rstrip('?') == 'arr')

def flatten_classes(eng, v, st):
  out = []
  for o in v.objs:
    if o.kind in ('class', 'ext'): out.append(o)
    elif o.kind in ('tuple', 'list'):
      q = eng.seq(o, st)
      if q is None: e = eng.elem(eng.av(o), st); q = (e,)
      for x in q: out += flatten_classes(eng, x, st)
  return out

PYT = {'list': 'builtins.list', 'tuple': 'builtins.tuple', 'dict': 'builtins.dict', 'arr': 'numpy.ndarray', 'set': 'builtins.set', 'slice': 'builtins.slice'}
SYMPYT = {'dict': 'builtins.dict', 'list': 'builtins.list', 'tuple': 'builtins.tuple', 'str': 'builtins.str', 'arr': 'numpy.ndarray', 'int': 'builtins.int', 'slice': 'builtins.slice'}

def isinst(eng, o, cls, st):
  """Does isinstance(o, cls) hold: True, False, None (unknown)."""
  cl = flatten_classes(eng, cls, st)
  if not cl: return None
  names = {c.info['name'] for c in cl if c.kind == 'ext'}
  reals = [c for c in cl if c.kind == 'class']
  k = o.kind
  if k == 'inst':
    m = eng.mro(o.info['cls'])
    if any(c in m for c in reals): return True
    if 'builtins.object' in names: return True
    if any(b.kind == 'ext' and b.info['name'] in names for c in m for b in c.info.get('bases', [])): return True
    return False
  if k == 'const':
    v = o.info['value']
    import builtins
    for n in names:
      if n.startswith('builtins.'):
        t = getattr(builtins, n[9:], None)
        if isinstance(t, type) and isinstance(v, t): return True
    if isinstance(v, (int, float)) and names & {'numpy.number', 'numbers.Number', 'numpy.integer', 'numpy.floating'}: return None
    return False
  if k in PYT: return True if PYT[k] in names else (None if 'collections.abc.Iterable' in names or any(n.startswith('collections') for n in names) else False)
  if k in ('func', 'bound', 'class', 'module'):
    if k == 'class' and 'builtins.type' in names: return True
    if names & {'types.FunctionType', 'types.MethodType', 'builtins.type', 'collections.abc.Callable'}: return None
    return False
  if k == 'scalar':
    if reals and not names: return False
    if names <= {'builtins.tuple', 'builtins.list', 'builtins.dict', 'numpy.ndarray', 'builtins.slice'}: return False
    return None
  if k == 'sym':
    t = o.info['type'].rstrip('?')
    if t in ('any',): return None
    c = eng.typeclass(t)
    if c is not None:
      m = eng.mro(c)
      if any(x in m for x in reals): return True
      if any(c in eng.mro(x) for x in reals): return None       # a subclass of the declared type
      return False
    base = t.split(':')[0].split('(')[0]
    if base == 'num': return None if names & {'builtins.int', 'builtins.float', 'numpy.number', 'numbers.Number', 'numpy.ndarray', 'numpy.integer', 'numpy.floating', 'builtins.str'} else False
    if base in SYMPYT:
      if SYMPYT[base] in names: return True
      if base == 'int' and names & {'numpy.integer', 'numbers.Number', 'numpy.number'}: return None
      if base == 'str' and any('str' in n or 'bytes' in n for n in names): return True
      if any('Iterable' in n or 'Sequence' in n for n in names): return None
      return False
    return None
  if k == 'ext': return None
  return None

def fresh(eng, node, labs, st, name=None, term=None, tag=''):
  return eng.mkarr(node, labs | (frozenset(('op:' + name,)) if name else frozenset()), st, tag=('np', name, tag), term=term)

def call_ext(eng, name, args, kw, node, st):
  """Call of a builtin, numpy function or other external callable."""
  labs = eng.arglabs(args, kw, st)
  from .engine import Star, _MISSING, Stop
  pa = [a.av if isinstance(a, Star) else a for a in args]
  eng.event('extcall', node, name=name, args=pa, kw=kw, st=st)
  if eng.tm is not None:
    r = eng.tm.call(eng, name, pa, kw, node, st, labs)
    if r is not None: return r
  if name in ('builtins.all', 'builtins.any') and len(pa) == 1:
    if isinstance(eng.constval(pa[0]), bool): return pa[0]
    q = eng.loop_iters(pa[0], st)
    if q is not None:
      ts = [eng.truth(x, st) for x in q]
      stop = name == 'builtins.any'
      if stop in ts: return eng.mk_const(stop).withlabs(labs)
      if all(t is (not stop) for t in ts): return eng.mk_const(not stop).withlabs(labs)
    if eng.libcall is not None and all(o.kind in ('list', 'tuple', 'set', 'gen') for o in args[0].objs):
      stop = name == 'builtins.any'
      v = eng.elem(args[0], st)
      if any(eng.truth(eng.av(o), st) is stop for o in v.objs): return eng.mk_const(stop).withlabs(labs)
  if name.startswith('builtins.'):
    h = globals().get('b_' + name[9:].replace('.', '_'))
    if h is not None:
      r = h(eng, args, kw, node, st, labs)
      if r is not None: return r
    n = name[9:]
    from .engine import BUILTIN_EXC
    if n in BUILTIN_EXC:
      o = eng.alloc('exc', node, st, tag=n); o.info['name'] = n
      st.heap[o] = {}
      return eng.av(o, labs)
    if n in ('len', 'abs', 'min', 'max', 'sum', 'round', 'int', 'float', 'str', 'bool', 'repr', 'ord', 'chr', 'hash', 'id', 'any', 'all', 'divmod', 'pow', 'callable', 'format', 'bytes', 'complex', 'hex'):
      c = [eng.constval(a, _MISSING) for a in pa]
      if len(pa) == 1 and c[0] is not _MISSING and n in ('int', 'float', 'str', 'bool', 'abs', 'len', 'chr', 'ord', 'repr') and not kw:
        try:
          import builtins
          v = getattr(builtins, n)(c[0])
          if isinstance(v, (int, float, str, bool)): return eng.mk_const(v).withlabs(labs)
        except Exception: pass
      if n in ('sum', 'min', 'max') and pa and not kw:
        q = eng.loop_iters(pa[0], st) if len(pa) == 1 or n == 'sum' else pa
        vs = [eng.constval(x, _MISSING) for x in list(q) + (pa[1:] if n == 'sum' else [])] if q is not None else [_MISSING]
        if all(isinstance(x, (int, float)) for x in vs) and (vs or n == 'sum'):
          return eng.mk_const(sum(vs) if n == 'sum' else min(vs) if n == 'min' else max(vs)).withlabs(labs)
      t = eng.mkterm('call', name, *[eng.term(a, st) for a in pa]) if not kw else None
      if n in ('min', 'max', 'sum', 'pow', 'abs') :
        e = eng.elem(pa[0], st) if len(pa) == 1 and n != 'abs' else None
        cand = pa if e is None else [e]
        if n == 'sum' and len(pa) > 1: cand = [pa[0]]; e = eng.elem(pa[0], st); cand = [e, pa[1]]
        if any(o.kind in ('inst', 'list', 'tuple', 'arr') or (o.kind == 'sym' and o.info['type'] not in ('num', 'int', 'str')) for a in cand for o in a.objs):
          r = None
          if n == 'sum' and len(pa) == 2 and not kw:
            # concatenation of known lists
            parts = eng.loop_iters(pa[0], st)
            qs = [eng.seq(next(iter(x.objs)), st) if len(x.objs) == 1 else None for x in [pa[1]] + list(parts)] if parts is not None else [None]
            if None not in qs and all(next(iter(x.objs)).kind in ('list', 'tuple') for x in [pa[1]] + list(parts)): return eng.mklist(next(iter(pa[1].objs)).kind, node, [y for q in qs for y in q], st, labs)
          if n == 'sum' and any(o.kind in ('list', 'tuple') for a in cand for o in a.objs):
            el = NOTH(eng)
            for a in cand:
              for o in a.objs:
                if o.kind in ('list', 'tuple'): el = J(el, eng.elem(eng.av(o), st))
            return eng.mkopen('list', node, el, st, labs)
          if n in ('min', 'max'): return J(eng.joinl(cand), NOTH(eng)).withlabs(labs)
          return eng.unknown(labs, t)
      if n == 'id' and len(pa) == 1 and len(pa[0].objs) == 1:
        o = next(iter(pa[0].objs))
        if o.kind in ('inst', 'list', 'dict', 'set') and eng.single(o):
          return eng.mk_const(eng.ids.setdefault(o, 140000000000 + 16 * len(eng.ids))).withlabs(labs | frozenset(('op:builtins.id',)))
      return eng.scalar(labs | (frozenset(('op:builtins.' + n,)) if n in ('id', 'hash') else frozenset()), t)
    return eng.unknown(labs)
  if name.startswith('numpy.'):
    return call_numpy(eng, name[6:], args, pa, kw, node, st, labs)
  if name in ('functools.reduce', 'reduce'):
    if len(pa) >= 2:
      q = eng.loop_iters(pa[1], st)
      if q is not None and (len(q) or len(pa) > 2):
        q = list(q)
        acc = pa[2] if len(pa) > 2 else q.pop(0)
        for i, x in enumerate(q):
          acc = eng.call(pa[0], [acc, x], {}, node, st)
        return acc.withlabs(pa[1].labs)
      e = eng.elem(pa[1], st)
      acc = J(pa[2], e) if len(pa) > 2 else e
      r = eng.call(pa[0], [acc.noterm(), e.noterm()], {}, node, st)
      return J(acc, r).withlabs(labs)
  if name in ('functools.wraps',):
    return eng.av(eng.obj('ext', ('pgsa.identity',), name='pgsa.identity'))
  if name == 'pgsa.identity': return pa[0]
  if name == 'functools.update_wrapper':
    for w in pa[0].objs:
      if w.kind == 'func' and len(pa) > 1:
        nm = eng.getattr(pa[1], '__name__', st, None, quiet=True)
        if nm is not None and nm.objs: eng.setf(st, w, '__name__', nm)
    return pa[0]
  if name == 'functools.partial':
    o = eng.obj('partial', (id(node), eng.stack[-1].ctx), f=pa[0], args=pa[1:], kw=kw)
    o.info.update(f=pa[0], args=pa[1:], kw=kw)
    return eng.av(o)
  if name in ('copy.copy', 'copy.deepcopy', 'copy'):
    return shallow_copy(eng, pa[0], node, st, deep=name.endswith('deepcopy'))
  if name in ('contextlib.contextmanager', 'contextlib.closing'): return pa[0]
  if name in ('collections.OrderedDict', 'collections.defaultdict'):
    r = b_dict(eng, args if name.endswith('OrderedDict') else [], kw if name.endswith('OrderedDict') else {}, node, st, labs)
    if name.endswith('defaultdict'):
      for o in r.objs:
        if o.kind == 'dict': eng.setf(st, o, 'open', True)
    return r
  if name in ('itertools.chain',):
    return eng.mkopen('gen', node, eng.joinl([eng.elem(a, st) for a in pa]), st, labs)
  if name in ('itertools.product', 'itertools.combinations', 'itertools.permutations'):
    if name.endswith('product') and eng.exactnp and not kw:
      qs = [eng.loop_iters(a, st) for a in pa]
      if all(q is not None for q in qs):
        import itertools
        combos = list(itertools.islice(itertools.product(*qs), 65))
        if len(combos) <= 64: return eng.mklist('list', node, [eng.mklist('tuple', node, list(c), st, labs, tag=('prod', i)) for i, c in enumerate(combos)], st, labs, tag='prod')
    e = [eng.elem(a, st) for a in pa if not eng.isconst(a)]
    if name.endswith('product'): t = eng.mklist('tuple', node, e, st, labs, tag='prod')
    else: t = eng.mkopen('tuple', node, eng.joinl(e), st, labs, tag='prod')
    return eng.mkopen('gen', node, t, st, labs)
  if name.startswith('operator.'):
    n = name[9:]
    if n in ('mul', 'add', 'sub', 'truediv') and len(pa) == 2:
      return eng.binop({'mul': 'Mult', 'add': 'Add', 'sub': 'Sub', 'truediv': 'Div'}[n], pa[0], pa[1], node, st)
  if name in ('warnings.warn', 'logging.warning'): return eng.NONE
  if name.startswith('re.'):
    r = call_re(eng, name[3:], pa, kw, node, st, labs)
    if r is not None: return r
  if name in ('os.listdir', 'glob.glob', 'glob.iglob', 'os.scandir', 'os.walk'):
    return eng.mkopen('list', node, eng.scalar(labs | {'op:' + name}), st, labs | {'op:' + name})
  top = name.split('.')[0]
  # native routines of the package and everything else: the result is new
  outs = NATIVE_OUT.get(name)
  if outs is not None:
    for i in outs:
      if i < len(pa):
        eng.mutate(pa[i], 'written by native routine ' + name, node, st, eng.unknown(labs))
        for o in pa[i].objs:
          if o.kind == 'arr':
            eng.setf(st, o, 'elem', type(pa[i])(frozenset(), eng.getf(st, o, 'elem', NOTH(eng)).labs | labs | {'op:' + name}))
            eng.setf(st, o, 'term', 'top')
  if top == 'pygeode':
    # an array handed to a native routine may be its output
    for a in pa:
      for o in a.objs:
        if o.kind == 'arr': eng.setf(st, o, 'elem', type(a)(frozenset(), eng.getf(st, o, 'elem', NOTH(eng)).labs | labs))
  if top == 'pygeode' or outs is not None:
    return eng.unknown(labs | {'op:' + name}, eng.mkterm('call', name, *[eng.term(a, st) for a in pa]) if not kw else None)
  return eng.unknown(labs | {'op:' + name}, eng.mkterm('call', name, *[eng.term(a, st) for a in pa]) if not kw else None)

RES = []
def call_re(eng, n, pa, kw, node, st, labs):
  """Regular expressions on exact strings."""
  import re
  from .engine import _MISSING
  c = [eng.constval(a, _MISSING) for a in pa]
  if _MISSING in c or kw: return None
  def give(x):
    if x is None or isinstance(x, (str, int, bool)): return eng.mk_const(x).withlabs(labs)
    if isinstance(x, (list, tuple)) and all(y is None or isinstance(y, (str, int)) for y in x): return eng.mklist('list' if isinstance(x, list) else 'tuple', node, [eng.mk_const(y) for y in x], st, labs)
    if isinstance(x, dict): return eng.mkdict(node, {k: eng.mk_const(v) for k, v in x.items()}, st, labs) if hasattr(eng, 'mkdict') else None
    if isinstance(x, (re.Match, re.Pattern)):
      k = ('m', x.re.pattern, x.re.flags, x.string, x.span()) if isinstance(x, re.Match) else ('p', x.pattern, x.flags)
      for i, (kk, y) in enumerate(RES):
        if kk == k: break
      else: i = len(RES); RES.append((k, x))
      return eng.ext('re.<%d>' % i).withlabs(labs)
    return None
  try:
    if n.startswith('<'):
      i, m = n[1:].split('>.')
      return give(getattr(RES[int(i)][1], m)(*c))
    if n in ('match', 'search', 'fullmatch', 'compile', 'sub', 'split', 'findall', 'escape'): return give(getattr(re, n)(*c))
  except Exception: return None
  return None
def J(a, b):
  from .engine import join
  return join(a, b)
def NOTH(eng):
  from .engine import NOTHING
  return NOTHING

def shallow_copy(eng, v, node, st, deep=False):
  objs = set()
  src = v.objs
  if len(src) > 6:
    # many possible originals: one copy standing for all of a kind
    src = set(); groups = {}
    for o in v.objs:
      if o.kind in ('list', 'dict', 'set', 'arr', 'tuple'): groups.setdefault(o.kind, []).append(o)
      else: src.add(o)
    for kind, os in groups.items():
      if len(os) <= 2: src |= set(os); continue
      k = eng.obj(kind, ('copy', id(node), eng.stack[-1].ctx if eng.stack else 0, 'many'), node=node)
      f = None
      for o in os: f = dict(eng.fields(st, o)) if f is None else eng.mfields(f, eng.fields(st, o), o)
      if kind == 'dict' and any(not eng.fields(st, o).get('open') for o in os): f['weak'] = True
      st.heap[k] = f; objs.add(k)
  for o in src:
    if o.kind in ('list', 'dict', 'set', 'arr', 'inst', 'tuple'):
      if deep and o.kind == 'arr':
        objs |= eng.mkarr(node, eng.labs(eng.av(o), st), st, tag='deepcopy').objs; continue
      k = eng.obj(o.kind, ('copy', id(node), eng.stack[-1].ctx if eng.stack else 0, o), **({'cls': o.info['cls'], 'node': node} if o.kind == 'inst' else {'node': node}))
      f = dict(eng.fields(st, o))
      if deep:
        for kk, x in list(f.items()):
          if hasattr(x, 'objs'): f[kk] = copy_deep(eng, x, node, st, 3)
          elif kk == 'seq' and x: f[kk] = tuple(copy_deep(eng, y, node, st, 3) for y in x)
      st.heap[k] = f
      objs.add(k)
    elif o.kind == 'sym':
      t = o.info['type'].rstrip('?')
      if t == 'arr': objs |= eng.mkarr(node, frozenset((o.info['path'],)), st, tag='copy').objs
      elif t == 'dict' or t.startswith('dict:'):
        d = eng.alloc('dict', node, st, tag=('copysym', o))
        f = {k: x for k, x in eng.fields(st, o).items() if isinstance(k, tuple)}
        f['open'] = True
        f['elem'] = eng.sym_elem(o, st)
        f['kelem'] = eng.scalar(frozenset((o.info['path'],)))
        f['origin'] = o
        st.heap[d] = f; objs.add(d)
      elif t.startswith(('list', 'tuple')):
        d = eng.alloc('list' if t.startswith('list') else 'tuple', node, st, tag=('copysym', o))
        st.heap[d] = {'seq': False, 'elem': eng.sym_elem(o, st)}; objs.add(d)
      elif t in ('str', 'num', 'int'): objs.add(o)
      else:
        k = eng.obj('sym', ('copyof', id(node), eng.stack[-1].ctx if eng.stack else 0, o), path='new:copy<%s>' % o.info['path'], type=o.info['type'], orig=o)
        st.heap[k] = dict(eng.fields(st, o)); objs.add(k)
    else: objs.add(o)
  return type(v)(frozenset(objs), v.labs, v.term)
def copy_deep(eng, v, node, st, depth):
  if depth == 0: return eng.unknown(v.labs)
  objs = set()
  for o in v.objs:
    if o.kind in ('arr',): objs |= eng.mkarr(node, eng.labs(eng.av(o), st), st, tag=('deep', o)).objs
    elif o.kind in ('dict', 'list', 'tuple', 'set', 'inst'): objs |= eng.unknown().objs
    elif o.kind == 'sym' and o.info['type'] not in ('str', 'num', 'int'): objs |= eng.unknown().objs
    else: objs.add(o)
  return type(v)(frozenset(objs), v.labs, v.term)

def np_out(eng, target, labs, node, st, name, term=None):
  eng.mutate(target, 'out= of numpy.' + name, node, st, eng.scalar(labs))
  for o in target.objs:
    if o.kind == 'arr':
      eng.setf(st, o, 'elem', type(target)(frozenset(), eng.getf(st, o, 'elem', NOTH(eng)).labs | labs | {'op:numpy.' + name}))
      eng.setf(st, o, 'term', term if term is not None else 'top')
  return target.withlabs(labs | {'op:numpy.' + name})

def aliased(eng, v, node, st, name, labs):
  """numpy function that may return (a view of) its argument."""
  objs = set()
  for o in v.objs:
    if o.kind == 'arr': objs.add(o)
    elif o.kind == 'sym':
      t = o.info['type'].rstrip('?')
      if t in ('arr', 'any'): objs.add(eng.obj('sym', (o.info['path'], 'arr'), path=o.info['path'], type='arr'))
      elif eng.typeclass(t) is not None:
        objs.add(eng.obj('sym', (o.info['path'] + '.<array>', 'arr'), path=o.info['path'] + '.<array>', type='arr'))
        eng.event('data_read', node, base=eng.av(o), how='numpy.' + name, st=st)
      else: objs |= eng.mkarr(node, labs, st, tag=('alias', name)).objs
    elif o.kind == 'inst':
      eng.event('data_read', node, base=eng.av(o), how='numpy.' + name, st=st)
      objs |= eng.mkarr(node, labs, st, tag=('alias', name)).objs
    elif o.kind == 'unk': objs.add(o)
    else: objs |= eng.mkarr(node, labs, st, tag=('alias', name)).objs
  return type(v)(frozenset(objs), v.labs)

def call_numpy(eng, n, args, pa, kw, node, st, labs):
  from .engine import AV, Star
  terms = None
  kt = []
  ok = True
  for k in sorted(kw):
    t = eng.term(kw[k], st)
    if t is None: ok = False; break
    kt.append(('kw', k, t))
  if ok and not any(isinstance(a, Star) for a in args):
    terms = eng.mkterm('call', 'numpy.' + n, *([eng.term(a, st) for a in pa] + kt))
  if n.startswith('ndarray.'):
    m = n[8:]
    if not pa: return eng.unknown(labs)
    if m.startswith('__') and m.endswith('__'):
      r = fresh(eng, node, labs, st, 'numpy.' + n, terms)
      return AV(r.objs, r.labs, terms)
    return call_method(eng, pa[0], m, args[1:], kw, node, st)
  if n in NP_VIEW and pa:
    cp = kw.get('dtype')
    r = aliased(eng, pa[0], node, st, n, labs)
    if n in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'require', 'asfortranarray'): t = eng.term(pa[0], st) if not (len(pa) > 1 or kw) else terms
    else: t = terms
    return AV(r.objs, r.labs | frozenset(('op:numpy.' + n,)) | (labs if len(pa) > 1 or kw else frozenset()), t)
  if n == 'array' and pa:
    c = kw.get('copy')
    if c is not None and eng.truth(c, st) is not True:
      r = aliased(eng, pa[0], node, st, n, labs)
      return AV(r.objs, r.labs | labs, terms)
    for o in pa[0].objs:
      if o.kind == 'inst' or (o.kind == 'sym' and eng.typeclass(o.info['type']) is not None): eng.event('data_read', node, base=eng.av(o), how='numpy.array', st=st)
    return fresh(eng, node, labs, st, 'numpy.array', eng.term(pa[0], st) if len(pa) == 1 and set(kw) <= {'copy', 'dtype'} else terms)
  if n in NP_MUT0 and pa:
    tgt = pa[0] if n != 'copyto' else pa[0]
    np_out(eng, tgt, labs, node, st, n)
    if 'copyto' == n and len(pa) > 1:
      for o in tgt.objs:
        if o.kind == 'arr': eng.setf(st, o, 'term', eng.term(pa[1], st) or 'top')
    return eng.NONE
  out = kw.get('out')
  if out is None and n in NP_BINUFUNC and len(pa) > 2: out = pa[2]
  if out is None and n in NP_UNUFUNC and len(pa) > 1: out = pa[1]
  if out is not None and not (eng.constval(out, 0) is None and eng.isconst(out)):
    r = []
    for o in out.objs:
      if o.kind in ('tuple',):
        e = eng.elem(eng.av(o), st); r.append(np_out(eng, e, labs, node, st, n))
      else: r.append(np_out(eng, eng.av(o, out.labs), labs, node, st, n, terms))
    return eng.joinl(r)
  if n == 'nan_to_num' and kw.get('copy') is not None and eng.constval(kw['copy'], True) is False:
    return np_out(eng, pa[0], labs, node, st, n)
  if n == 'apply_along_axis' or n == 'apply_over_axes' or n == 'vectorize':
    for f in pa[0].objs:
      if f.kind in ('func', 'bound') and n != 'vectorize':
        eng.call1(f, [eng.unknown(labs)] + pa[3:], {}, node, st, pa[0])
    return fresh(eng, node, labs, st, 'numpy.' + n, terms)
  if n in ('where', 'nonzero', 'unique', 'meshgrid', 'divmod', 'modf', 'frexp', 'histogram', 'ix_', 'broadcast_arrays', 'split', 'array_split', 'indices', 'linalg.svd', 'linalg.eig', 'linalg.eigh', 'linalg.qr', 'atleast_1d', 'broadcast_arrays') and not (n == 'where' and len(pa) >= 3):
    for o in (x for a in pa for x in a.objs):
      pass
    e = fresh(eng, node, labs, st, 'numpy.' + n, None, 'el')
    if n == 'unique' and not kw: return AV(e.objs, e.labs, terms)
    return eng.mkopen('tuple', node, e, st, labs | {'op:numpy.' + n}, term=terms)
  if n in ('allclose', 'array_equal', 'array_equiv', 'isclose') and len(pa) >= 2 and eng.oracle is not None:
    r = eng.oracle(eng, pa[0], pa[1], st, n)
    if r is not None: return eng.mk_const(r).withlabs(labs)
  if n in ('all', 'any', 'alltrue', 'sometrue') and len(pa) == 1 and isinstance(eng.constval(pa[0]), bool): return pa[0]
  if n == 'sort' and eng.exactnp and len(pa) == 1 and len(pa[0].objs) == 1:
    q = eng.seq(next(iter(pa[0].objs)), st)
    cs = [eng.constval(x, None) for x in q] if q is not None else [None]
    if all(isinstance(c, int) for c in cs): return eng.mklist('list', node, sorted(q, key=lambda x: eng.constval(x)), st, labs)
  if n in ('float32', 'float64', 'int32', 'int64', 'bool_', 'uint8', 'int8', 'int16', 'complex128', 'dtype', 'isscalar', 'ndim', 'size', 'prod', 'issubdtype', 'allclose', 'array_equal', 'iterable', 'result_type', 'can_cast', 'finfo', 'iinfo', 'promote_types', 'common_type', 'find_common_type', 'alltrue'):
    if n == 'prod' and pa and any(isarr(o) for o in pa[0].objs): return fresh(eng, node, labs, st, 'numpy.' + n, terms)
    return eng.scalar(labs | {'op:numpy.' + n}, terms)
  if n.startswith('random.'):
    return fresh(eng, node, labs | {'op:numpy.' + n}, st, 'numpy.' + n)
  if n in ('s_', 'index_exp'): return eng.unknown(labs)
  if n in ('errstate', 'seterr', 'warnings', 'nditer', 'ndindex', 'ndenumerate'): return eng.unknown(labs)
  for a in pa:
    for o in a.objs:
      if o.kind == 'inst' and eng.isvarclass(o.info['cls']) or (o.kind == 'sym' and o.info['type'] in ('Var', 'Axis')):
        eng.event('data_read', node, base=eng.av(o), how='numpy.' + n, st=st)
  return fresh(eng, node, labs, st, 'numpy.' + n, terms)

def call_method(eng, recv, name, args, kw, node, st):
  """Method call on a builtin container, array, string or unknown object."""
  from .engine import AV, Star, join, _MISSING, NOTHING
  pa = [a.av if isinstance(a, Star) else a for a in args]
  labs = eng.arglabs(args, kw, st) | eng.labs(recv, st)
  eng.event('method', node, recv=recv, name=name, args=pa, kw=kw, st=st)
  out = None
  for o in recv.objs:
    r = method1(eng, o, recv, name, pa, args, kw, node, st, labs)
    out = r if out is None else join(out, r)
  return out if out is not None else eng.unknown(labs)

def exact_pairs(eng, me, o, a, st):
  "d.update(pairs) with a known number of pairs whose keys are known constants; false when the pairs are not exactly known."
  x = next(iter(a.objs))
  if not eng.single(o) or len(me.objs) != 1 or eng.fields(st, x).get('maybe'): return False
  q = eng.loop_iters(a, st)
  if q is None: return False
  out = []
  for z in q:
    if len(z.objs) != 1: return False
    y = next(iter(z.objs))
    if y.kind not in ('tuple', 'list') or eng.fields(st, y).get('maybe'): return False
    s = eng.seq(y, st)
    if s is None or len(s) != 2: return False
    c = eng.constval(s[0], None)
    if isinstance(c, bool) or not isinstance(c, (str, int)): return False
    out.append((c, s[1]))
  for c, v in out: eng.setf(st, o, ('k', c), v.withlabs(st.ctl))
  return True

def method1(eng, o, recv, name, pa, args, kw, node, st, labs):
  from .engine import AV, Star, join, _MISSING, NOTHING
  k = o.kind
  t = o.info['type'].rstrip('?') if k == 'sym' else None
  me = AV(frozenset((o,)), recv.labs)
  if k == 'unk':
    return AV(eng.unknown().objs, labs)
  if k == 'sym' and t == 'any':
    p = o.info['path']
    if name in ('keys', 'values', 'items', 'get', 'copy', 'update', 'setdefault', 'pop') or name in LIST_MUT:
      if name in LIST_MUT or name in DICT_MUT: eng.mutate(me, '.%s()' % name, node, st, pa[0] if pa else None)
    if name == 'copy': return eng.unknown(labs)
    if name in ('get', 'getview', 'getvalues', 'load'): eng.event('data_read', node, base=me, how='.' + name, st=st, view=None, pbar=kw.get('pbar'))
    return AV(eng.unknown().objs, labs | frozenset((p,)))
  if k == 'const' or t == 'str':
    v = o.info.get('value') if k == 'const' else None
    if k == 'const' and isinstance(v, str):
      if name == 'format': eng.event('strformat', node, fmt=me, args=None, st=st)
      cs = [eng.constval(a, _MISSING) for a in pa]
      if name == 'encode' and eng.libcall is not None and all(isinstance(c, str) for c in cs) and not kw:
        try: return eng.mk_const(v.encode(*cs)).withlabs(labs)
        except Exception: pass
      if name == 'join' and len(pa) == 1:
        q = eng.loop_iters(pa[0], st)
        js = [eng.constval(x, _MISSING) if not hasattr(x, 'av') else _MISSING for x in q] if q is not None and not eng.fields(st, next(iter(pa[0].objs))).get('maybe') else [_MISSING]
        if all(isinstance(x, str) for x in js): return eng.mk_const(v.join(js)).withlabs(labs)
      if all(c is not _MISSING and (name != 'format' or isinstance(c, (str, int, float))) for c in cs) and not kw and name in ('format', 'lower', 'upper', 'strip', 'replace', 'startswith', 'endswith', 'split', 'lstrip', 'rstrip', 'title', 'capitalize', 'index', 'find', 'isdigit', 'isalpha', 'partition'):
        try:
          r = getattr(v, name)(*cs)
          if isinstance(r, (str, bool, int)): return eng.mk_const(r).withlabs(labs)
          if isinstance(r, (list, tuple)): return eng.mklist('list' if isinstance(r, list) else 'tuple', node, [eng.mk_const(x) for x in r], st, labs, tag=('cm', name, v))
        except Exception: pass
    if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'): return eng.mkopen('list', node, eng.scalar(labs), st, labs)
    return eng.scalar(labs)
  if k == 'scalar': return eng.scalar(labs)
  if k == 'arr' or t == 'arr':
    if eng.tm is not None:
      r = eng.tm.method(eng, o, name, pa, kw, node, st, labs)
      if r is not None: return r
    if name in ('getview', 'getvalues', 'get'): return AV(frozenset((o,)), labs)
    if name in ARR_MUT_METHODS:
      eng.mutate(me, '.%s()' % name, node, st, pa[0] if pa else None)
      if k == 'arr':
        eng.setf(st, o, 'elem', AV(frozenset(), eng.getf(st, o, 'elem', NOTHING).labs | labs))
        full = name == 'fill'
        eng.setf(st, o, 'term', (eng.term(pa[0], st) if pa else None) or 'top' if full else 'top')
      return eng.NONE
    if name == 'setflags':
      eng.event('setflags', node, obj=me, attr='setflags', value=pa[0] if pa else None, st=st); return eng.NONE
    tt = eng.mkterm('meth', name, eng.term(me.withterm(recv.term), st), *[eng.term(a, st) for a in pa]) if not kw else None
    if name in ARR_VIEW_METHODS: return AV(frozenset((o,)), labs, tt)
    if name == 'astype':
      c = kw.get('copy')
      if c is not None and eng.truth(c, st) is not True: return AV(frozenset((o,)), labs, tt)
      return eng.mkarr(node, labs, st, 'astype', tt)
    if name == 'copy': return eng.mkarr(node, labs, st, 'copy', eng.term(me.withterm(recv.term), st))
    if name in ('tolist', 'nonzero'): return eng.mkopen('list', node, eng.scalar(labs), st, labs)
    if name in ('item', 'any', 'all') and not pa and not kw: return eng.scalar(labs | {'op:arr.' + name}, tt)
    if name in ('tostring', 'tobytes', 'dumps', 'tofile'): return eng.scalar(labs)
    if name in ('split', 'lower', 'strip', 'upper'): return eng.unknown(labs)
    out = kw.get('out')
    if out is not None and not eng.isconst(out): return np_out(eng, out, labs, node, st, name)
    return eng.mkarr(node, labs | {'op:arr.' + name}, st, ('m', name), tt)
  if k in ('list', 'tuple', 'gen') or (t is not None and t.split(':')[0].split('(')[0] in ('list', 'tuple')):
    if name in LIST_MUT and k != 'tuple' and not (t or '').startswith('tuple'):
      eng.mutate(me, '.%s()' % name, node, st, pa[0] if pa else None)
    q = eng.seq(o, st)
    if k == 'list':
      strong = not eng.loopdepth and len(recv.objs) == 1
      if name == 'append' and pa:
        v = pa[0].withlabs(st.ctl)
        eng.setf(st, o, 'seq', q + (v,) if q is not None and len(q) < 200 else False)
        eng.setf(st, o, 'elem', join(v, eng.getf(st, o, 'elem')))
        return eng.NONE
      if name == 'extend' and pa:
        q2 = eng.loop_iters(pa[0], st)
        eng.setf(st, o, 'seq', q + q2 if q is not None and q2 is not None else False)
        e = eng.elem(pa[0], st).withlabs(st.ctl)
        if e.objs or e.labs: eng.setf(st, o, 'elem', join(e, eng.getf(st, o, 'elem')))
        return eng.NONE
      if name == 'insert' and len(pa) > 1:
        c = eng.constval(pa[0], None)
        v = pa[1].withlabs(st.ctl)
        if q is not None and isinstance(c, int):
          ql = list(q); ql.insert(c, v); eng.setf(st, o, 'seq', tuple(ql))
        else: eng.setf(st, o, 'seq', False)
        eng.setf(st, o, 'elem', join(v, eng.getf(st, o, 'elem')))
        return eng.NONE
      if name == 'pop':
        c = eng.constval(pa[0], None) if pa else -1
        e = eng.elem(me, st)
        if q is not None and isinstance(c, int) and -len(q) <= c < len(q):
          ql = list(q); r = ql.pop(c); eng.setf(st, o, 'seq', tuple(ql)); return r
        eng.setf(st, o, 'seq', False)
        return e
      if name == 'copy': return shallow_copy(eng, me, node, st)
      if name in ('sort', 'reverse', 'remove', 'clear'):
        eng.elem(me, st)
        if name == 'reverse' and q is not None: eng.setf(st, o, 'seq', tuple(reversed(q)))
        elif name == 'clear': st.heap[o] = {'seq': ()}
        else:
          if eng.getf(st, o, 'elem') is None and q: eng.setf(st, o, 'elem', eng.joinl(q))
          eng.setf(st, o, 'seq', False)
        if name == 'sort' and kw.get('key') is not None:
          eng.call(kw['key'], [eng.elem(me, st)], {}, node, st)
        return eng.NONE
    if name == 'index' and len(pa) == 1 and eng.seq(o, st) is not None and pa[0].objs:
      i = eng.find_in(eng.seq(o, st), pa[0], st, node, there=True)
      if i is not None and i >= 0:
        eng.keythrow -= 1          # it is there
        return eng.mk_const(i).withlabs(labs if not eng.dataonly else frozenset())
    if name in ('index', 'count'): return eng.scalar(labs)
    if name in ('__next__',): return eng.elem(me, st)
    if name == 'copy': return shallow_copy(eng, me, node, st)
    if name == 'pop': return eng.elem(me, st)
    if name in ('__add__',): return eng.binop('Add', me, pa[0], node, st)
    return eng.unknown(labs)
  if k == 'dict' or (t is not None and (t == 'dict' or t.startswith('dict:'))):
    if name in DICT_MUT: eng.mutate(me, '.%s()' % name, node, st, pa[0] if pa else None)
    f = eng.fields(st, o)
    c = eng.constval(pa[0], _MISSING) if pa else _MISSING
    if name in ('get', 'pop', 'setdefault'):
      d = pa[1] if len(pa) > 1 else (eng.NONE if name != 'pop' else NOTHING)
      if k == 'dict':
        if c is not _MISSING and ('k', c) in f and not f.get('weak'):
          r = f[('k', c)]
          if f.get('open'): pass
        elif c is not _MISSING and not f.get('open') and ('k', c) not in f: r = d
        else:
          r = eng.getitem(me, pa[0], st, node)
          r = AV(frozenset(x for x in r.objs), r.labs) if r.objs else r
          r = join(r, d)
        if name == 'setdefault' and len(pa) > 1:
          if c is not _MISSING: eng.setf(st, o, ('k', c), join(r, d))
          else:
            eng.setf(st, o, 'elem', join(d, eng.getf(st, o, 'elem'))); eng.setf(st, o, 'open', True); eng.setf(st, o, 'weak', True)
          r = join(r, d)
        if name == 'pop' and c is not _MISSING and len(recv.objs) == 1: eng.delf(st, o, ('k', c))
        return r.withlabs(pa[0].labs | recv.labs)
      r = eng.getitem(me, pa[0], st, node) if pa else eng.unknown(labs)
      return join(r, d)
    if name == 'keys':
      e = eng.elem(me, st)
      if k == 'dict' and not f.get('open') and f.get('elem') is None:
        return maybe(eng, eng.mklist('list', node, [eng.mk_const(x[1]) for x in f if isinstance(x, tuple)], st, recv.labs), f, st)
      return eng.mkopen('list', node, e, st, recv.labs)
    if name in ('values', 'items', 'itervalues', 'iteritems'):
      if k == 'dict' and not f.get('open') and f.get('elem') is None:
        ks = [x for x in f if isinstance(x, tuple) and x[0] == 'k']
        if name == 'values': return maybe(eng, eng.mklist('list', node, [f[x] for x in ks], st, recv.labs), f, st)
        return maybe(eng, eng.mklist('list', node, [eng.mklist('tuple', node, [eng.mk_const(x[1]), f[x]], st, tag=('it', x)) for x in ks], st, recv.labs), f, st)
      if k == 'dict':
        vs = [x for kk, x in f.items() if isinstance(kk, tuple) and kk[0] == 'k'] + ([f['elem']] if f.get('elem') is not None else [])
        v = eng.joinl(vs) if vs else eng.unknown(recv.labs)
      else:
        v = eng.sym_elem(o, st)
        for kk, x in f.items():
          if isinstance(kk, tuple) and kk[0] == 'k': v = join(v, x)
      if name.endswith('values'): return eng.mkopen('list', node, v, st, recv.labs)
      return eng.mkopen('list', node, eng.mklist('tuple', node, [eng.elem(me, st), v], st, tag=('it', o)), st, recv.labs)
    if name == 'copy': return shallow_copy(eng, me, node, st)
    if name == 'update':
      new = [(None, a) for a in pa]
      for kk, v in kw.items():
        if kk != '**' and k == 'dict': eng.setf(st, o, ('k', kk), v.withlabs(st.ctl))
      for a in pa:
        for x in a.objs:
          if x.kind == 'dict':
            for kk, v in eng.fields(st, x).items():
              if isinstance(kk, tuple) and kk[0] == 'k':
                v = v.withlabs(st.ctl)
                if k == 'dict': eng.setf(st, o, kk, v if len(a.objs) == 1 and not eng.fields(st, x).get('weak') and not eng.fields(st, x).get('maybe') else join(v, eng.getf(st, o, kk)))
            fx = eng.fields(st, x)
            if k == 'dict' and (fx.get('maybe') or len(a.objs) > 1): eng.setf(st, o, 'maybe', True)
            if (fx.get('open') or fx.get('elem') is not None) and k == 'dict':
              eng.setf(st, o, 'open', True); eng.setf(st, o, 'weak', True)
              if fx.get('elem') is not None: eng.setf(st, o, 'elem', join(fx['elem'], eng.getf(st, o, 'elem')))
              if fx.get('kelem') is not None: eng.setf(st, o, 'kelem', join(fx['kelem'], eng.getf(st, o, 'kelem')))
          else:
            if k == 'dict' and len(a.objs) == 1 and x.kind in ('list', 'tuple', 'gen') and exact_pairs(eng, me, o, a, st): continue
            if k == 'dict':
              if x.kind == 'sym': e = eng.sym_elem(x, st)
              else: e = eng.unknown(a.labs)
              eng.setf(st, o, 'elem', join(e.withlabs(st.ctl), eng.getf(st, o, 'elem'))); eng.setf(st, o, 'open', True); eng.setf(st, o, 'weak', True)
              eng.setf(st, o, 'kelem', join(eng.scalar(a.labs), eng.getf(st, o, 'kelem')))
      return eng.NONE
    if name == 'has_key': return eng.scalar(labs)
    if name == 'clear':
      if k == 'dict': st.heap[o] = {}
      return eng.NONE
    return eng.unknown(labs)
  if k == 'set':
    if name in SET_MUT:
      x = eng.getf(st, o, 'exact') if eng.single(o) else None
      if isinstance(x, frozenset) and name in ('add', 'discard', 'remove', 'update', 'difference_update', 'intersection_update', 'clear'):
        if name in ('add', 'discard', 'remove'): ys = [frozenset((eng.exactval(pa[0], st),))] if pa else []
        else:
          ys = []
          for a in pa:
            y = eng.setval(a, st)
            if y is None:
              q = eng.loop_iters(a, st)
              y = frozenset(eng.exactval(z, st) for z in q) if q is not None and not any(eng.fields(st, z).get('maybe') for z in a.objs) else frozenset((_MISSING,))
            ys.append(y)
        for y in ys:
          if _MISSING in y: x = None; break
          x = x | y if name in ('add', 'update') else x & y if name == 'intersection_update' else x - y
        if name == 'clear': x = frozenset()
      else: x = None
      eng.mutate(me, '.%s()' % name, node, st, pa[0] if pa else None)
      if name == 'add': eng.setf(st, o, 'elem', join(pa[0], eng.getf(st, o, 'elem')))
      elif name == 'update' and pa: eng.setf(st, o, 'elem', join(eng.elem(pa[0], st), eng.getf(st, o, 'elem')))
      if x is not None: eng.setf(st, o, 'exact', x)
      return eng.NONE if name != 'pop' else eng.elem(me, st)
    if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
      r = eng.mkopen('set', node, eng.joinl([eng.elem(me, st)] + [eng.elem(a, st) for a in pa]), st, labs)
      xs = [eng.setval(eng.av(o), st)]
      for a in pa:
        x = eng.setval(a, st)
        if x is None and len(a.objs) == 1:
          q = eng.seq(next(iter(a.objs)), st)
          if q is not None:
            q = [eng.exactval(y, st) for y in q]
            if all(isinstance(y, tuple) for y in q): x = frozenset(q)
        xs.append(x)
      if None not in xs and not (name == 'symmetric_difference' and len(xs) > 2):
        x = xs[0]
        for y in xs[1:]: x = {'union': x.union, 'intersection': x.intersection, 'difference': x.difference, 'symmetric_difference': x.symmetric_difference}[name](y)
        for z in r.objs: eng.setf(st, z, 'exact', x)
      return r
    return eng.scalar(labs)
  return eng.unknown(labs)

# ---------------------------------------------------------------- builtins
def b_len(eng, args, kw, node, st, labs):
  if len(args) != 1: return None
  for o in args[0].objs:
    if o.kind == 'inst':
      m = eng.getattr(eng.av(o), '__len__', st, node, quiet=True)
      if m is not None and m.objs and len(args[0].objs) == 1: return eng.call(m, [], {}, node, st)
  r = set()
  for o in args[0].objs:
    if o.kind in ('list', 'tuple', 'dict'):
      q = eng.seq(o, st)
      r.add(len(q) if q is not None else None)
    elif o.kind == 'const' and isinstance(o.info['value'], str): r.add(len(o.info['value']))
    else: r.add(None)
  if len(r) == 1 and None not in r: return eng.mk_const(r.pop()).withlabs(args[0].labs)
  return eng.scalar(labs | {'op:builtins.len'}, eng.mkterm('call', 'len', eng.term(args[0], st)))

def b_isinstance(eng, args, kw, node, st, labs):
  if len(args) != 2: return None
  r = {eng.isinst(o, args[1], st) for o in args[0].objs}
  l = args[0].labs
  if r == {True}: return eng.mk_const(True)
  if r == {False}: return eng.mk_const(False)
  return eng.scalar(l, eng.mkterm('isinstance', args[0].term, args[1].term))
def b_issubclass(eng, args, kw, node, st, labs):
  if len(args) != 2: return None
  cl = flatten_classes(eng, args[1], st)
  r = set()
  for o in args[0].objs:
    if o.kind == 'class' and all(c.kind == 'class' for c in cl) and cl: r.add(any(c in eng.mro(o) for c in cl))
    else: r.add(None)
  if len(r) == 1 and None not in r: return eng.mk_const(r.pop())
  return eng.scalar(labs)
def b_hasattr(eng, args, kw, node, st, labs):
  if len(args) < 2: return None
  n = eng.constval(args[1], None)
  if not isinstance(n, str): return eng.scalar(labs)
  r = set()
  for o in args[0].objs:
    k = o.kind
    if k == 'inst':
      v = eng.getf(st, o, n)
      cls = o.info['cls']
      if v is not None and not any(x.kind == 'absent' for x in v.objs): r.add(True)
      elif v is not None: r.add(None)
      elif eng.classattr(cls, n, st) is not None: r.add(True)
      elif n in ('values', 'axes') or n.startswith('__'): r.add(False)
      elif eng.classattr(cls, '__getattr__', st) is not None: r.add(eng.dynhas(o, n, node, st))
      elif any(b.kind == 'ext' and b.info['name'] != 'builtins.object' for c in eng.mro(cls) for b in c.info.get('bases', [])): r.add(None)
      else: r.add(False)
    elif k == 'class':
      r.add(eng.classattr(o, n, st) is not None or None)
    elif k == 'module': r.add(eng.getf(st, o, n) is not None or None)
    elif k == 'ext':
      import numpy
      if o.info['name'].startswith('numpy'):
        x = numpy
        for p in o.info['name'].split('.')[1:]: x = getattr(x, p, None)
        r.add(hasattr(x, n) if x is not None else None)
      else: r.add(None)
    elif k == 'sym':
      c = eng.typeclass(o.info['type'])
      if c is not None and eng.classattr(c, n, st) is not None: r.add(True)
      elif c is not None and n in ('axes', 'name', 'shape'): r.add(True)
      elif o.info['type'] in ('dict', 'str', 'num', 'int', 'arr', 'list'):
        import numpy
        T = {'dict': dict, 'str': str, 'num': float, 'int': int, 'arr': numpy.ndarray, 'list': list}[o.info['type']]
        r.add(hasattr(T, n))
      else: r.add(None)
    elif k in ('list', 'dict', 'tuple', 'set', 'arr', 'slice'):
      import numpy
      r.add(hasattr({'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'arr': numpy.ndarray, 'slice': slice}[k], n))
    elif k == 'const': r.add(hasattr(o.info['value'], n))
    elif k in ('func', 'bound'): r.add(True if n in ('__call__', '__name__', '__doc__') else None)
    else: r.add(None)
  eng.event('hasattr', node, base=args[0], name=n, st=st)
  if r == {True}: return eng.mk_const(True)
  if r == {False}: return eng.mk_const(False)
  return eng.scalar(args[0].labs)
def b_getattr(eng, args, kw, node, st, labs):
  if len(args) < 2: return None
  n = eng.constval(args[1], None)
  names = [o.info['value'] for o in args[1].objs if o.kind == 'const' and isinstance(o.info['value'], str)]
  if names and len(names) == len(args[1].objs):
    r = None
    for x in names:
      h = eng.constval(b_hasattr(eng, [args[0], eng.mk_const(x)], {}, node, st, labs), None)
      if h is False and len(args) > 2: v = args[2]
      else:
        v = eng.getattr(args[0], x, st, node)
        if len(args) > 2 and h is None: v = J(v, args[2])
      r = v if r is None else J(r, v)
    return r
  r = eng.unknown(labs)
  # unknown attribute name: any of the metadata attributes
  for o in args[0].objs:
    if o.kind == 'sym' and eng.typeclass(o.info['type']) is not None:
      r = J(r, eng.sym(o.info['path'] + '.<attr>', 'any'))
  if len(args) > 2: r = J(r, args[2])
  return r
def b_setattr(eng, args, kw, node, st, labs):
  if len(args) != 3: return None
  names = [o.info['value'] for o in args[1].objs if o.kind == 'const' and isinstance(o.info['value'], str)]
  if len(names) == 1 and len(args[1].objs) == 1: eng.setattr(args[0], names[0], args[2], st, node)
  else:
    eng.event('setattr', node, obj=None, attr=None, value=args[2], st=st)
    for o in args[0].objs: eng.event('setattr', node, obj=o, attr='<any>', value=args[2], st=st)
    for nm in names:
      for o in args[0].objs:
        if o.kind in ('inst', 'class', 'module'):
          old = eng.getf(st, o, nm)
          eng.setf(st, o, nm, J(args[2], old) if old is not None else J(args[2], eng.ABSENT))
  return eng.NONE
def b_delattr(eng, args, kw, node, st, labs):
  for o in args[0].objs: eng.event('delattr', node, obj=o, attr=eng.constval(args[1], '<any>') if len(args) > 1 else None)
  return eng.NONE
def b_type(eng, args, kw, node, st, labs):
  if len(args) == 1:
    objs = set()
    for o in args[0].objs:
      if o.kind == 'inst': objs.add(o.info['cls'])
      elif o.kind == 'sym' and eng.typeclass(o.info['type']) is not None: objs.add(eng.typeclass(o.info['type']))
      elif o.kind in PYT: objs.add(eng.obj('ext', (PYT[o.kind],), name=PYT[o.kind]))
      elif o.kind == 'const': n = 'builtins.' + type(o.info['value']).__name__; objs.add(eng.obj('ext', (n,), name=n))
      else: objs |= eng.unknown().objs
    from .engine import AV
    t = eng.mkterm('attr', args[0].term, '__class__')
    return AV(frozenset(objs), frozenset(x + '.__class__' for x in args[0].labs if not x.startswith('op:')), t)
  if len(args) == 3:
    from .engine import _MISSING
    n = eng.constval(args[0], 'dynamic')
    co = eng.obj('class', (id(node), eng.stack[-1].ctx), name=n, mod=eng.stack[-1].mod, node=node, qual=eng.stack[-1].mod + '.' + str(n))
    bs = []
    for x in (eng.loop_iters(args[1], st) or ()):
      for o in x.objs:
        if o.kind in ('class', 'ext'): bs.append(o)
    co.info['bases'] = bs
    f = {'__name__': args[0], '__doc__': eng.NONE}
    for o in args[2].objs:
      for kk, v in eng.fields(st, o).items():
        if isinstance(kk, tuple) and kk[0] == 'k': f[kk[1]] = v
    st.heap[co] = f
    return eng.av(co)
  return None
def maybe(eng, v, f, st):
  """Some keys of the dictionary may be missing: so may elements of the list."""
  if f.get('maybe'):
    for o in v.objs: eng.setf(st, o, 'maybe', True)
  return v
def b_tuple(eng, args, kw, node, st, labs, kind='tuple'):
  if not args: return eng.mklist(kind, node, [], st)
  v = args[0]
  q = eng.loop_iters(v, st)
  if q is not None: return maybe(eng, eng.mklist(kind, node, [x for x in q], st, v.labs), eng.fields(st, next(iter(v.objs))), st)
  if len(v.objs) > 1:
    qs = [eng.seq(o, st) for o in v.objs]
    if all(x is not None for x in qs) and len({len(x) for x in qs}) == 1:
      return eng.mklist(kind, node, [eng.joinl(list(z)) for z in zip(*qs)], st, v.labs)
  if kind == 'tuple' and all(o.kind == 'tuple' or (o.kind == 'sym' and o.info['type'].startswith('tuple')) for o in v.objs): return v
  t = eng.term(v, st)
  return eng.mkopen(kind, node, eng.elem(v, st), st, v.labs, term=t if t is not None and t[0] == 'map' else None)
def b_list(eng, args, kw, node, st, labs): return b_tuple(eng, args, kw, node, st, labs, 'list')
def b_set(eng, args, kw, node, st, labs):
  q = ()
  if args: q = eng.seq(next(iter(args[0].objs)), st) if len(args[0].objs) == 1 and next(iter(args[0].objs)).kind in ('list', 'tuple', 'dict') else None
  x = None
  if len(args) == 1 and len(args[0].objs) == 1 and next(iter(args[0].objs)).kind == 'set': x = eng.getf(st, next(iter(args[0].objs)), 'exact')
  r = eng.mkopen('set', node, eng.elem(args[0], st) if args else NOTH(eng), st, labs)
  for o in r.objs:
    if eng.getf(st, o, 'exact') is not None: eng.setf(st, o, 'exact', 'top')
  eng.set_exact(r, q, st)
  if isinstance(x, frozenset):
    for o in r.objs: eng.setf(st, o, 'exact', x)
  return r
def b_frozenset(eng, args, kw, node, st, labs): return b_set(eng, args, kw, node, st, labs)
def b_sorted(eng, args, kw, node, st, labs):
  if kw.get('key') is not None: eng.call(kw['key'], [eng.elem(args[0], st)], {}, node, st)
  if eng.sort_reverses and len(args[0].objs) == 1:
    q = eng.seq(next(iter(args[0].objs)), st)
    if q is not None and len(q) > 1 and not any(eng.isconst(x) for x in q): return eng.mklist('list', node, list(reversed(q)), st, labs)
  q = eng.seq(next(iter(args[0].objs)), st) if len(args[0].objs) == 1 and not kw else None
  if q is None and not kw and eng.setval(args[0], st) is not None and all(x[0] == 'c' for x in eng.setval(args[0], st)): q = [eng.mk_const(x[1]) for x in eng.setval(args[0], st)]
  if q is not None and q and all(eng.isconst(x) for x in q):
    try: return eng.mklist('list', node, sorted(q, key=eng.constval), st, labs)
    except TypeError: pass
  if q is not None and len(q) <= 1: return eng.mklist('list', node, list(q), st, labs)
  return eng.mkopen('list', node, eng.elem(args[0], st).withlabs(frozenset(('op:builtins.sorted',))), st, frozenset(x for x in labs))
def b_reversed(eng, args, kw, node, st, labs):
  q = eng.loop_iters(args[0], st)
  if q is not None: return eng.mklist('list', node, list(reversed(q)), st, labs)
  return eng.mkopen('list', node, eng.elem(args[0], st), st, args[0].labs)
def b_iter(eng, args, kw, node, st, labs): return args[0]
def b_next(eng, args, kw, node, st, labs):
  e = eng.elem(args[0], st)
  return e if len(args) < 2 else J(e, args[1])
def b_dict(eng, args, kw, node, st, labs):
  if args:
    d = eng.alloc('dict', node, st, tag='dict')
    f = {}
    st.heap[d] = f
    for o in args[0].objs:
      if o.kind == 'dict': f.update({k: v for k, v in eng.fields(st, o).items()})
      elif o.kind == 'sym' and o.info['type'].startswith('dict'):
        f['open'] = True; f['elem'] = eng.sym_elem(o, st); f['kelem'] = eng.scalar(frozenset((o.info['path'],)))
        f['origin'] = o
        for k, v in eng.fields(st, o).items():
          if isinstance(k, tuple): f[k] = v
      else:
        q = eng.seq(o, st)
        pairs = None
        if q is not None:
          pairs = [eng.loop_iters(x, st) for x in q]
        if pairs is not None and all(p is not None and len(p) == 2 and eng.isconst(p[0]) for p in pairs):
          for p in pairs: f[('k', eng.constval(p[0]))] = p[1]
        else:
          e = eng.elem(eng.av(o), st)
          kv = eng.unpack(e, 2, st, node)
          f['open'] = True; f['weak'] = True; f['elem'] = J(kv[1].withlabs(args[0].labs), f.get('elem')); f['kelem'] = J(kv[0], f.get('kelem'))
    st.heap[d] = f
  else:
    d = eng.alloc('dict', node, st, tag='dict'); st.heap[d] = {}
  for k, v in kw.items():
    if k == '**':
      eng.setf(st, d, 'open', True); eng.setf(st, d, 'elem', J(v, eng.getf(st, d, 'elem')))
    else: eng.setf(st, d, ('k', k), v)
  return eng.av(d)
def b_range(eng, args, kw, node, st, labs):
  from .engine import _MISSING
  cs = [eng.constval(a, _MISSING) for a in args]
  if all(isinstance(c, int) for c in cs) and len(range(*cs)) <= 24: return eng.mklist('list', node, [eng.mk_const(i) for i in range(*cs)], st, labs)
  return eng.mkopen('list', node, eng.scalar(labs), st, labs, term=eng.mkterm('call', 'range', *[a.term for a in args]))
def b_enumerate(eng, args, kw, node, st, labs):
  q = eng.loop_iters(args[0], st)
  start = eng.constval(args[1], None) if len(args) > 1 else eng.constval(kw['start'], None) if 'start' in kw else 0
  if q is not None and isinstance(start, int): return eng.mklist('list', node, [eng.mklist('tuple', node, [eng.mk_const(i + start), x], st, tag=('en', i)) for i, x in enumerate(q)], st, args[0].labs)
  return eng.mkopen('list', node, eng.mklist('tuple', node, [eng.scalar(E0), eng.elem(args[0], st).withterm(('elem', args[0].term) if args[0].term is not None else None)], st, tag='en'), st, args[0].labs)
E0 = frozenset()
def b_zip(eng, args, kw, node, st, labs):
  from .engine import Star
  if any(isinstance(a, Star) for a in args):
    e = eng.joinl([eng.elem(a.av if isinstance(a, Star) else a, st) for a in args])
    return eng.mkopen('list', node, eng.mkopen('tuple', node, e, st, labs, tag='zip'), st, labs)
  qs = [eng.loop_iters(a, st) for a in args]
  if qs and all(q is not None for q in qs):
    n = min(len(q) for q in qs)
    return eng.mklist('list', node, [eng.mklist('tuple', node, [q[i] for q in qs], st, tag=('zip', i)) for i in range(n)], st, labs_of(args))
  es = [eng.elem(a, st) for a in args]
  return eng.mkopen('list', node, eng.mklist('tuple', node, [e.withterm(('elem', a.term) if a.term is not None else None) for e, a in zip(es, args)], st, tag='zip'), st, labs_of(args))
def labs_of(args):
  r = frozenset()
  for a in args: r |= a.labs
  return r
def b_map(eng, args, kw, node, st, labs):
  if len(args) < 2: return None
  qs = [eng.loop_iters(a, st) for a in args[1:]]
  if all(q is not None for q in qs):
    n = min(len(q) for q in qs)
    out = []
    fr = eng.stack[-1]; c0 = fr.ctx
    for i in range(n):
      fr.ctx = eng.subctx(c0, node, ('map', i))
      out.append(eng.call(args[0], [q[i] for q in qs], {}, node, st))
    fr.ctx = c0
    return eng.mklist('list', node, out, st, labs_of(args[1:]))
  eng.loopdepth += 1; eng.absdepth += 1
  r = eng.call(args[0], [eng.elem(a, st) for a in args[1:]], {}, node, st)
  eng.loopdepth -= 1; eng.absdepth -= 1
  return eng.mkopen('list', node, r, st, labs_of(args[1:]))
def b_filter(eng, args, kw, node, st, labs):
  e = eng.elem(args[1], st)
  if not eng.isconst(args[0]): eng.call(args[0], [e], {}, node, st)
  return eng.mkopen('list', node, e, st, args[1].labs)
def b_slice(eng, args, kw, node, st, labs):
  xs = list(args)
  if len(xs) == 1: xs = [eng.NONE, xs[0], eng.NONE]
  elif len(xs) == 2: xs = xs + [eng.NONE]
  from .engine import Star
  if any(isinstance(x, Star) for x in xs): return eng.sliceobj(node, [eng.scalar(labs)] * 3, st)
  return eng.sliceobj(node, xs, st)
def b_property(eng, args, kw, node, st, labs):
  g = args[0] if args else kw.get('fget', eng.NONE)
  o = eng.obj('prop', (id(node), eng.stack[-1].ctx, g.objs), fget=g)
  return eng.av(o)
def b_staticmethod(eng, args, kw, node, st, labs):
  return eng.av(eng.obj('static', (args[0].objs,), f=args[0]))
def b_classmethod(eng, args, kw, node, st, labs):
  return eng.av(eng.obj('clsm', (args[0].objs,), f=args[0]))
def b_globals(eng, args, kw, node, st, labs):
  mo = eng.obj('module', (eng.stack[-1].mod,), name=eng.stack[-1].mod)
  return eng.av(eng.obj('gdict', (mo,), mod=mo))
def b_locals(eng, args, kw, node, st, labs):
  d = eng.alloc('dict', node, st, tag='locals')
  f = {('k', k): v for k, v in eng.fields(st, eng.stack[-1].obj).items() if isinstance(k, str)}
  st.heap[d] = f
  return eng.av(d)
def b_object(eng, args, kw, node, st, labs): return eng.unknown()
def b_object___setattr__(eng, args, kw, node, st, labs): return b_setattr(eng, args, kw, node, st, labs)
def b_object___new__(eng, args, kw, node, st, labs):
  objs = set()
  for c in args[0].objs:
    if c.kind == 'class':
      o = eng.obj('inst', (id(node), eng.stack[-1].ctx, c), cls=c, node=node)
      st.heap[o] = {}
      objs.add(o)
  from .engine import AV
  return AV(frozenset(objs)) if objs else eng.unknown()
def b_object___init__(eng, args, kw, node, st, labs): return eng.NONE
def b_print(eng, args, kw, node, st, labs): return eng.NONE
def b_vars(eng, args, kw, node, st, labs): return eng.unknown(labs)
