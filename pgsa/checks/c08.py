"""C08: every operator and named math function computes the numpy operation of its name on its operands, in order.

Rule: each operator method of Var and each element-wise function is called symbolically on variables (and on a
variable and a number), the result is read, and the normal form of the value it returns must equal the normal form
of the operation its name stands for, applied to the values read from the operands through the requested view."""
from .. import runner as R, reading, terms as T
from ..engine import where, Stop, Budget

UNARY = ['sign', 'exp', 'log', 'log10', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'sqrt', 'real', 'imag', 'conj', 'angle', 'arccos', 'arcsin', 'arctan', 'arccosh', 'arcsinh', 'arctanh', 'nan_to_num']
DEG_IN = {'cosd': 'cos', 'sind': 'sin', 'tand': 'tan'}
DEG_OUT = {'arccosd': 'arccos', 'arcsind': 'arcsin', 'arctand': 'arctan'}
BINOPS = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'divide', 'pow': 'power', 'mod': 'mod'}
CMPS = {'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal', 'eq': 'equal', 'ne': 'not_equal'}

def table():
  """name -> (arity, where it is found, function of operand terms giving the expected normal form)"""
  A = T.apply
  out = []
  for n in UNARY: out.append((n, 1, lambda a, n=n: A(n, a)))
  out.append(('abs', 1, lambda a: A('absolute', a)))
  for n, f in DEG_IN.items(): out.append((n, 1, lambda a, f=f: A(f, [A('deg2rad', a)])))
  for n, f in DEG_OUT.items(): out.append((n, 1, lambda a, f=f: A('rad2deg', [A(f, a)])))
  out.append(('arctan2', 2, lambda a: A('arctan2', a)))
  out.append(('arctand2', 2, lambda a: A('rad2deg', [A('arctan2', a)])))
  out.append(('minimum', 2, lambda a: A('minimum', a)))
  out.append(('maximum', 2, lambda a: A('maximum', a)))
  out.append(('clip', 3, lambda a: A('clip', a)))
  out.append(('vsum', 3, lambda a: A('add', [A('add', a[:2]), a[2]])))
  out.append(('vprod', 3, lambda a: A('multiply', [A('multiply', a[:2]), a[2]])))
  return out

def optable():
  A = T.apply; out = []
  for n, f in BINOPS.items():
    out.append(('__%s__' % n, 2, lambda a, f=f: A(f, a)))
    out.append(('__r%s__' % n, 2, lambda a, f=f: A(f, a[::-1])))
  for n, f in CMPS.items(): out.append(('__%s__' % n, 2, lambda a, f=f: A(f, a)))
  out.append(('__abs__', 1, lambda a: A('absolute', a)))
  out.append(('__neg__', 1, lambda a: A('negative', a)))
  return out

def signatures(n):
  """Operand kinds a call is analysed with: V a variable, N a number."""
  if n == 1: return ['V']
  if n == 2: return ['VV', 'VN']
  return ['V' + 'N' * (n - 1), 'V' * n]

def obligations():
  out = []
  for n, k, f in optable():
    for s in signatures(k): out.append((n, s, 'operator', f))
  for n, k, f in table():
    for s in signatures(k):
      out.append((n, s, 'function', f))
      if k == 1 and n != 'abs': out.append((n, s, 'method', f))
  # a number may come first in a call of a binary function
  for n, k, f in table():
    if k == 2: out.append((n, 'NV', 'function', f))
  return out

def show(t, depth=0):
  if not isinstance(t, tuple) or not t: return str(t)
  if t[0] == 'value': return t[1]
  if t[0] == 'num': return '%g' % t[1]
  if t[0] == 'prod*': return '(' + ' * '.join(([] if t[1] == 1 else ['%g' % t[1]]) + [show(g) + ('' if e == 1 else '**%g' % e) for g, e in t[2]]) + ')'
  if t[0] == 'sum*': return '(' + ' + '.join(show(x) for x in t[1]) + ')'
  if t[0] == 'read': return 'value read from %s%s' % (show(t[1]), '' if len(t) < 3 or t[2] == ('sym', 'view') else ' through another view')
  if t[0] == 'sym': return t[1]
  if depth > 6: return '...'
  return '%s(%s)' % (t[0], ', '.join(show(x, depth + 1) for x in t[1:]))

def run(rep):
  eng = R.engine()
  obs = obligations()
  V = eng.find_class_any('pygeode.var.Var')
  pkgs = ('pygeode', 'pygeode.ufunc')

  def resolve(n, how):
    if how in ('operator', 'method'):
      v = eng.classattr(V, n, eng.new_state())
      return v
    for p in pkgs:
      v = eng.lookup_global(p, n)
      if v is not None and any(o.kind in ('func', 'class') for o in v.objs): return v
    return None

  def go(i):
    n, sig, how, f = obs[i]
    callee = resolve(n, how)
    if callee is None or not callee.objs: return 'missing', None, []
    st = eng.new_state(); eng.opaque = eng.cutsets[1]; eng.budget = 60000
    args = []; ops = []
    for j, k in enumerate(sig):
      nm = 'xyz'[j]
      args.append(eng.sym(nm, 'Var' if k == 'V' else 'num'))
      ops.append(('read', ('sym', nm), ('sym', 'view')) if k == 'V' else ('sym', nm))
    bad = []
    def lis(eng, kind, node, d):
      if kind in ('bad_call', 'raise', 'undefined_name'): bad.append('%s at %s' % (d.get('why') or kind, where(node)))
    eng.listeners = [lis]
    try: r = eng.root_call(callee, args, {}, st, mod='pygeode.var', node=None)
    except (Budget, RecursionError): return 'budget', None, []
    if r is None: return 'fails', None, bad[-2:]
    res = []
    insts = [o for o in r.objs if o.kind == 'inst']
    if not insts: return 'novalue', None, [repr(sorted(map(str, r.objs)))[:200]]
    want = f(ops)
    for o in insts:
      m = eng.classattr(o.info['cls'], 'getview', st)
      if m is None: return 'novalue', None, []
      for fo in m.objs:
        if fo.kind != 'func': continue
        v, _, s = reading.read(eng, o.info['cls'], 'getview', fo, eng.av(o), st.copy(), False)
        if v is None: return ('fails' if s == 'raises' else 'budget'), None, bad[-2:]
        t = eng.term(v, st)
        dt = None
        if t is not None and t[0] == 'call' and t[1] in ('numpy.asarray', 'numpy.array') and len(t) == 4: dt = t[3]
        res.append((T.norm(t) if t is not None else None, sorted(l for l in v.labs if l.startswith('op:')), dt, want))
    return 'ok', res, []
  ok = lost = dts = 0
  for i, (s, res, why) in R.parallel(go, range(len(obs))):
    n, sig, how, f = obs[i]
    name = {'operator': 'Var.%s' % n, 'method': 'Var.%s' % n, 'function': 'pygeode.%s' % n}[how]
    if s == 'missing': rep.add('missing', '%s' % name, '%s is not defined' % name, name); continue
    if s == 'fails': rep.add('fails', '%s|%s' % (name, sig), '%s on (%s) always fails: %s' % (name, sig, '; '.join(why)), name); continue
    if s != 'ok': lost += 1; rep.assumptions.append('%s on (%s): value not followed (%s)' % (name, sig, s)); continue
    for got, labs, dt, want in res:
      if got is None:
        lost += 1; rep.assumptions.append('%s on (%s): value form not followed' % (name, sig)); continue
      ok += 1
      if got != want: rep.add('wrong-operation', '%s|%s' % (name, sig), '%s on (%s) computes %s, expected %s' % (name, ', '.join('xyz'[j] + (':number' if k == 'N' else ':variable') for j, k in enumerate(sig)), show(got), show(want)), name)
      elif len(rep.samples) < 10: rep.samples.append('%s(%s) = %s' % (name, sig, show(got)))
      if dt is not None and got == want:
        # the result's type must come from applying the same operation
        d = T.norm(dt)
        if d[0] == 'dtype' and len(d) == 2 and isinstance(d[1], tuple) and d[1][0] == 'attr' and d[1][2] == 'dtype':
          dts += 1
          one = f([('num', 1.0)] * len(sig))
          if d[1][1] != one: rep.add('wrong-type', '%s|%s' % (name, sig), '%s declares the type of %s, not of its own operation' % (name, show(d[1][1])), name)
  if not ok: print(rep.assumptions[:8])
  rep.obligations = len(obs)
  rep.floor('operations_decided', ok, 60)
  rep.coverage['operations_not_followed'] = lost
  rep.coverage['result_types_decided'] = dts
  rep.explanation = 'Normal form of the value every element-wise operation returns, compared with the operation its name stands for.'
