"""C18: leaving out an optional argument works.

Every public operation is followed with all its optional arguments left out, and with each one that defaults to None left
out while the others are given.  A call that fails in every execution though the one with all arguments returns breaks the
property; so does using None where it cannot be used (its attributes, its items, iterating over it,
calling it, computing or ordering with it, its length): that fails in every execution that gets there."""
import ast
from .. import cuts, ops, runner as R
from ..engine import where, qualname, AV, Star

NEEDS = {'builtins.' + x for x in ('len', 'iter', 'list', 'tuple', 'set', 'dict', 'sorted', 'sum', 'min', 'max', 'enumerate', 'zip', 'reversed', 'issubclass', 'int', 'float', 'abs', 'round', 'all', 'any', 'ord', 'frozenset', 'next', 'range')}
NPNEEDS = {'numpy.' + x for x in ('concatenate', 'arange', 'zeros', 'ones', 'empty', 'sqrt', 'exp', 'log', 'sin', 'cos', 'abs', 'absolute', 'floor', 'ceil', 'isnan', 'diff', 'vstack', 'hstack')}

def isnone(v): return isinstance(v, AV) and len(v.objs) == 1 and (lambda o: o.kind == 'const' and o.info['value'] is None)(next(iter(v.objs)))
def plain(v):
  """Values whose operators are those of numbers, arrays and sequences."""
  return bool(v.objs) and all(o.kind in ('scalar', 'const', 'arr', 'list', 'tuple', 'dict') or (o.kind == 'sym' and o.info['type'].rstrip('?') in ('num', 'int', 'str', 'arr', 'dict') or o.kind == 'sym' and o.info['type'].startswith('list')) for o in v.objs)

def watch(hits):
  def hit(eng, node, how, txt):
    hits.setdefault((how, qualname(node), txt), (where(node), tuple(eng.chain()[-4:])))
  def src(n):
    try: return ast.unparse(n)[:40]
    except Exception: return ''
  def lis(eng, kind, node, d):
    if kind == 'getattr':
      if isnone(d['base']) and not hasattr(None, d['name']): hit(eng, node, 'attribute', 'None.%s' % d['name'])
    elif kind == 'getitem':
      if isnone(d['base']): hit(eng, node, 'item', src(node))
      elif isnone(d['key']) and d['base'].objs and all(nonekey(eng, o, d['st']) for o in d['base'].objs): hit(eng, node, 'key', src(node))
    elif kind == 'iterate':
      if isnone(d['iter']): hit(eng, node, 'iterate', src(d['expr']))
    elif kind == 'call':
      o = d['callee']
      if o.kind == 'const' and o.info['value'] is None and isinstance(node, ast.Call): hit(eng, node, 'call', src(node.func))
    elif kind == 'extcall':
      n = d['name']
      if n in NEEDS or n in NPNEEDS:
        a = d['args']
        xs = a if n == 'builtins.zip' else a[:1] if n == 'builtins.issubclass' or n in ('builtins.min', 'builtins.max', 'builtins.int', 'builtins.range') and len(a) == 1 or n not in ('builtins.min', 'builtins.max') else a
        for x in xs:
          if isnone(x): hit(eng, node, 'argument', '%s: %s' % (n.split('.')[-1], src(node)))
    elif kind == 'compare':
      if isinstance(node, ast.Compare):
        vals = d['values']
        for i, op in enumerate(node.ops):
          if i + 1 >= len(vals): break
          a, b = vals[i], vals[i + 1]
          if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (isnone(a) and plain(b) or isnone(b) and plain(a)): hit(eng, node, 'order', src(node))
          if isinstance(op, (ast.In, ast.NotIn)) and isnone(b): hit(eng, node, 'item', src(node))
    elif kind == 'arith':
      a, b = d['left'], d['right']
      if isnone(a) and plain(b) or isnone(b) and plain(a) and not (d['op'] == 'Mod'): hit(eng, node, 'arithmetic', src(node))
  return lis
def nonekey(eng, o, st):
  """None is no index or key of it."""
  if o.kind in ('list', 'tuple'): return True
  if o.kind != 'dict': return False
  f = eng.fields(st, o)
  if f.get('open') or f.get('elem') is not None or f.get('kelem') is not None: return False
  ks = [k for k in f if isinstance(k, tuple) and k[0] == 'k']
  return bool(ks) and ('k', None) not in ks
TEXT = {'attribute': 'an attribute of None is used', 'item': 'None is indexed', 'key': 'None is looked up', 'iterate': 'None is iterated over', 'call': 'None is called', 'argument': 'None is passed where a value is needed', 'order': 'None is compared by order', 'arithmetic': 'None takes part in arithmetic'}

def optional(eng, root, st):
  """[(name, position or None, default AV)] of the parameters that may be left out."""
  fo = root.func
  if root.kind == 'new':
    init = eng.classattr(root.cls, '__init__', st)
    fo = next((o for o in (init.objs if init is not None else ()) if o.kind == 'func'), None)
  if fo is None: return None, []
  a = fo.info['node'].args; f = eng.fields(st, fo)
  defs = f.get('defaults', ()); kwdefs = f.get('kwdefaults', ())
  pos = a.posonlyargs + a.args; nd = len(pos) - len(defs)
  out = [(p.arg, i, defs[i - nd]) for i, p in enumerate(pos) if i >= nd]
  out += [(p.arg, None, d) for p, d in zip(a.kwonlyargs, kwdefs) if d is not None]
  return fo, out

def call(eng, root, fo, given, st):
  """The operation with its required arguments and the optional ones in `given`."""
  selfav = None
  if root.kind == 'methodm': selfav = R.selfsym(eng, root.cls)
  elif root.kind == 'methodc': selfav = eng.av(root.cls)
  elif root.kind == 'new': selfav = eng.NONE
  args, kw = ops.sym_bindings(eng, fo, st, None, selfav)
  a = fo.info['node'].args
  pos = a.posonlyargs + a.args
  f = eng.fields(st, fo); nd = len(pos) - len(f.get('defaults', ()))
  args = [x for x in args]
  keep = []; kws = {}
  for i, x in enumerate(args):
    if i >= len(pos): continue                         # further positional arguments are optional too
    if i < nd: keep.append(x)
    elif pos[i].arg in given: kws[pos[i].arg] = AV(frozenset(o for o in x.objs if not (o.kind == 'const' and o.info['value'] is None)), x.labs, x.term)
  for k, x in kw.items():
    if k in given or (k not in ('**',) and k in {p.arg for p, d in zip(a.kwonlyargs, f.get('kwdefaults', ())) if d is None}): kws[k] = x
  if a.vararg and 'varargs' in given: keep += [x for x in args[len(pos):]]
  R.prepare(eng, root)
  if root.heavy: eng.opaque = dict(eng.opaque, **{'pygeode.dataset.axis_name_clumping': cuts._unknown})    # that summary's None is no value of the package's
  try:
    if root.kind == 'new': r = eng.root_call(eng.av(root.cls), keep[1:], kws, st, mod=root.cls.info['mod'], node=root.cls.info['node'])
    else: r = eng.root_call(eng.av(fo), keep, kws, st, mod=fo.info['mod'])
    return 'done' if r is not None else 'raises'
  except (R.Budget, RecursionError): return 'budget'

def run(rep):
  eng = R.engine()
  roots = R.roots(eng)
  st0 = eng.new_state()
  items = []; varargs = {}; optnames = {}
  for i, r in enumerate(roots):
    fo, opt = optional(eng, r, st0)
    if fo is None: continue
    node = fo.info['node']
    extra = node.args.vararg is not None
    if not opt and not extra: continue
    names = [n for n, p, d in opt]
    nones = [n for n, p, d in opt if isnone(d)]
    varargs[i] = extra; optnames[i] = names
    items.append((i, (), False))
    items.append((i, tuple(names) + (('varargs',) if extra else ()), True))
    if len(names) > 1 or extra:
      for n in nones: items.append((i, tuple(x for x in names if x != n) + (('varargs',) if extra else ()), False))
  def go(it):
    i, given, _ = it; r = roots[i]
    hits = {}
    eng.listeners = [watch(hits)]
    st = eng.new_state()
    fo, opt = optional(eng, r, st)
    how = call(eng, r, fo, set(given), st)
    eng.listeners = []
    return how, list(hits.items())
  whole = {}
  tot = {'done': 0, 'raises': 0, 'budget': 0}; seen = {}; raising = []
  results = list(R.parallel(go, items))
  for (i, given, full), (how, hits) in results:
    if full: whole[i] = how
  for it, (how, hits) in results:
    tot[how] += 1
    root = roots[it[0]]
    if how == 'raises' and whole[it[0]] == 'done' and root.kind != 'new' and (it[1] or not varargs[it[0]]):
      left = [n for n in optnames[it[0]] if n not in it[1]]
      rep.add('refused', '%s|%s' % (root.name, ', '.join(left)), '%s returns when all its optional arguments are given, but fails in every execution when %s is left out' % (root.name, ', '.join(left)), where(root.func.info['node']))
    if how != 'done': raising.append('%s(%s) %s' % (roots[it[0]].name, ', '.join(it[1]), how))
    for (rule, qual, t), (at, chain) in hits: seen.setdefault((rule, qual, t), (at, chain, roots[it[0]].name, it[1]))
  for (rule, qual, t), (at, chain, name, given) in sorted(seen.items()):
    rep.add(rule, '%s|%s' % (qual, t), '%s (%s) in %s when %s is called %s: %s' % (TEXT[rule], t, qual, name, 'without its optional arguments' if not given else 'with only %s of its optional arguments' % ', '.join(given), ' > '.join(str(c) for c in chain)), at)
  rep.coverage['not_returning'] = raising
  rep.floor('calls_followed', len(items), 300)
  rep.floor('calls_completed', tot['done'], 250)
  rep.explanation = 'Every public operation with optional arguments, called without them and with all but one.'
