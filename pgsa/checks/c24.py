"""C24: progress reporting never changes a result; nested reads report to the display they were given.

(1) Readers, and operations taking a display, are followed with an arbitrary display (or none): no part of what they return
    may depend on it.  (2) With a display given, every read of another variable's data on the way is handed a display made
    from it (or the reader itself reports to it).  (3) Client probes: everything documented as a way of asking for a display
    - True, False, None, a message, a display, a silent display, a part of one - can be given wherever one is taken; a part
    of a display covers its share of the same display."""
from .. import ops, probe, runner as R, reading
from ..engine import AV, Budget, where, qualname
from . import c04, c05


def of(labs, name='pbar'): return {l for l in labs if l.lstrip('*') == name or l.lstrip('*').startswith((name + '.', name + '[', name + '<'))}

def display(eng, v, st):
  """Is every possible value of the argument made from the display given?"""
  return v is not None and bool(of(eng.labs(v, st)) or of(eng.deep_labs(v, st)))

PROBE = c04.SRC + '''
from pygeode.progress import PBar, FakePBar, as_pbar
def shown(d, a, b): return PBar(pbar=d, lower=a, upper=b)
def silent(): return FakePBar()
def asked(x): return as_pbar(x)
def subset(p, a, b): return p.subset(a, b)
def part(p, i, n): return p.part(i, n)
def update(p, x): return p.update(x)
def use(p, x): p.update(x); p.subset(x, x).update(x); p.part(0, 2).update(x); return p.subset(x, x).part(1, 2).subset(x, x)
def get(v, p): return v.get(pbar=p)
def load(v, p): return v.load(pbar=p)
def viewed(v, p):
  from pygeode.view import View
  return View(v.axes).get(v, pbar=p)
def summed(v): return v + 1
def smoothed(v): return v.smooth('time', 3)
def same(v): return v
'''

def run(rep):
  eng = R.engine()
  eng.jumpctl = True
  eng.exactis = True
  influence(eng, rep)
  protocol(eng, rep)
  rep.explanation = 'Every reader and every operation taking a display, followed with an arbitrary one: dependence of the result on it, and the display handed to each nested read; client probes of the ways a display is asked for and divided.'

def influence(eng, rep):
  targets = reading.targets(eng)
  roots = [r for r in R.roots(eng) if takes(r)]
  items = [('reader', i) for i in range(len(targets))] + [('root', i) for i in range(len(roots))]
  var = eng.find_class_any('pygeode.var.Var'); axis = eng.find_class_any('pygeode.axis.Axis')
  # what is read depends on the region that is read
  for t in eng.cutsets.values() if isinstance(eng.cutsets, dict) else eng.cutsets:
    plain = t.get('pygeode.view.View.get') if t else None
    if plain is None: continue
    def get(eng, st, o, args, kw, node, plain=plain):
      r = plain(eng, st, o, args, kw, node)
      ls = of(eng.labs(args[0], st) | eng.deep_labs(args[0], st)) if r is not None and hasattr(args[0], 'objs') else ()
      return AV(r.objs, r.labs | frozenset(ls), r.term) if ls else r
    t['pygeode.view.View.get'] = get
  old_types = dict(ops.PARAMTYPES)
  def go(it):
    kind, i = it; found = {}; n = 0
    for typ in ('any?', 'cls:pygeode.progress.PBar'):
      reads = []; reports = set()
      def lis(eng, k, node, d):
        if k == 'data_read': reads.append((qualname(node), where(node), d['how'], d['base'], display(eng, d.get('pbar'), d['st']), d['st'], tuple(eng.chain())))
        elif k == 'call' and d['callee'].kind == 'bound' and d['callee'].info['func'].info.get('qual', '').endswith('PBar.update'): reports.add(qualname(node))
        elif k == 'enter' and d['func'].info.get('qual', '').endswith('PBar.update') and d.get('call') is not None: reports.add(qualname(d['call']))
        elif k == 'method' and d['name'] == 'update' and of(eng.labs(d['recv'], d['st'])): reports.add(qualname(node))
      if kind == 'reader':
        c, m, fo = targets[i]
        if m != 'getview': return 'none', 0, []
        what = c.info['qual'] + '.getview'
        heavy = c.info['qual'].startswith(R.HEAVY)
        eng.listeners = []
        selfav, st, how = reading.make(eng, c, heavy); st = st.copy()
        eng.opaque = eng.cutsets[1]; eng.budget = eng.steps + R.BUDGET
        a = fo.info['node'].args
        args = [selfav, eng.sym('view', 'View')]
        if len(a.posonlyargs + a.args) >= 3: args.append(eng.sym('pbar', typ))
        eng.listeners = [lis]
        try: r = eng.root_call(eng.av(fo), args, {}, st, mod=fo.info['mod'], node=fo.info['node']); s = 'done' if r is not None else 'raises'
        except (Budget, RecursionError): r, s = None, 'budget'
      else:
        root = roots[i]; what = root.name
        ops.PARAMTYPES['pbar'] = typ
        st = R.prepare(eng, root) if False else eng.new_state()
        eng.listeners = [lis]
        try: r, st, s = R.run_root(eng, root, st)
        finally: ops.PARAMTYPES['pbar'] = old_types['pbar']
      eng.listeners = []
      if s == 'budget': return s, n, sorted(found.items())
      if r is not None and typ == 'any?' and not isdisplay(eng, r):
        n += 1
        ls = of(eng.labs(r, st) | eng.deep_labs(r, st))
        if ls: found.setdefault(('influence', what, ''), (what, 'what %s returns depends on the progress display given' % what))
      if typ != 'any?':
        for q, at, how, base, ok, s2, chain in reads:
          if not base.objs or all(issub(eng, b, axis) for b in base.objs): continue
          if any(b.kind == 'inst' and eng.getf(s2, b, 'values') is not None for b in base.objs): continue
          if how != 'View.get': continue             # what a constructor or an axis reads, at a point that knows of no display
          if any(str(x).endswith(('.__new__', '.__init__')) for x in chain): continue
          n += 1
          if not ok and q not in reports: found.setdefault(('silent', q, ''), (at, '%s reads data on the way (%s) without handing on the progress display it was given' % (q, how)))
    return s, n, sorted(found.items())
  n = 0; k = 0; why = {}; seen = {}
  for it, (s, m, found) in R.parallel(go, items):
    n += m
    name = targets[it[1]][0].info['qual'] if it[0] == 'reader' else roots[it[1]].name
    if s == 'budget': why[name] = s
    elif s != 'none': k += 1
    for key, (at, text) in found: seen.setdefault(key, (at, text))
  for (rule, q, x), (at, text) in sorted(seen.items()): rep.add(rule, q, text, at)
  rep.obligations += n
  rep.coverage['not_decided'] = why
  rep.floor('readers_and_operations', k, 60)
def issub(eng, o, c):
  if o.kind == 'inst': return eng.issub(o.info['cls'], c)
  if o.kind == 'sym':
    t = eng.typeclass(o.info['type']) if o.info['type'] else None
    return t is not None and eng.issub(t, c)
  return False
def isdisplay(eng, r): return any(o.kind == 'inst' and o.info['cls'].info['qual'].startswith('pygeode.progress.') for o in r.objs)
def takes(r):
  if r.func is None: return False
  a = r.func.info['node'].args
  return any(x.arg == 'pbar' for x in a.posonlyargs + a.args + a.kwonlyargs) and not r.func.info['qual'].startswith('pygeode.progress.')

def protocol(eng, rep):
  op = {k: v for k, v in eng.cutsets[1].items() if k not in c04.KEEP and not k.startswith(('pygeode.view.View.', 'pygeode.var.Var.'))}
  op['pygeode.axis.Axis._readaxisconfig'] = lambda *a: eng.NONE
  p = probe.Probe(eng, PROBE, opaque=op)
  d = eng.sym('d', 'any')
  def number(x): return eng.sym(x, 'scalar')
  def shown(st=None, lo=None, up=None): return p.call('shown', [d, lo or number('l'), up or number('u')], st=st)[:2]
  ways = [('True', lambda: (eng.mk_const(True), None)), ('False', lambda: (eng.mk_const(False), None)), ('None', lambda: (eng.NONE, None)), ('a message', lambda: (eng.mk_const('message'), None)), ('a display', shown), ('a silent display', lambda: p.call('silent')[:2])]
  n = 0
  class_ = {}
  for what, mk in ways:
    x, st = mk()
    if x is None: rep.add('ways', what, 'PBar or FakePBar cannot be made'); continue
    n += 1
    r, st, how = p.call('asked', [x], st=st, salt=1)
    if how == 'raises': rep.add('ways', 'as_pbar|' + what, 'as_pbar fails when given %s' % what); continue
    if r is None: continue
    if not isdisplay(eng, r): rep.add('ways', 'as_pbar|' + what, 'as_pbar gives no display for %s' % what); continue
    if what.startswith('a ') and what != 'a message' and not (r.objs & x.objs): rep.add('ways', 'as_pbar|' + what, 'as_pbar gives another display than %s it was given' % what)
    if what in ('False', 'None') and any(o.kind == 'inst' and o.info['cls'].info['qual'] == 'pygeode.progress.PBar' for o in r.objs): rep.add('ways', 'as_pbar|' + what, 'as_pbar(%s) opens a display' % what)
    r, st, how = p.call('use', [r, number('x')], st=st, salt=2)
    if how == 'raises': rep.add('ways', 'use|' + what, 'the display as_pbar gives for %s cannot be updated and divided' % what)
    elif r is not None and not isdisplay(eng, r): rep.add('ways', 'use|' + what, 'a part of the display as_pbar gives for %s is not a display' % what)
  NAMES = {'get': 'Var.get', 'load': 'Var.load', 'viewed': 'View.get'}
  todo = [(kind, var, f, w) for kind, var in (('inmem', 'same'), ('lazy', 'same'), ('lazy', 'summed'), ('lazy', 'smoothed')) for f in NAMES for w in list(range(len(ways))) + [None]
          if var == 'same' or f == 'viewed']
  def go(it):
    kind, var, f, w = it
    x, st = ways[w][1]() if w is not None else (eng.sym('pbar', 'any?'), None)
    if x is None: return 'unknown', False, False
    v, st, how = p.call(kind, [eng.sym('x', 'arr'), eng.NONE], st=st)
    if v is None: return 'unknown', False, False
    y, st, how = p.call(var, [AV(frozenset(o for o in v.objs if o.kind == 'inst'), v.labs)], st=st, salt=3)
    if y is None: return 'unknown', False, False
    none = []
    def lis(eng, kind, node, e):
      if kind == 'method' and e['name'] in ('update', 'subset', 'part') and e['recv'].objs and all(o.kind == 'const' for o in e['recv'].objs): none.append(where(node))
    r, st, how = p.call(f, [y, x], st=st, salt=4, listeners=[lis])
    return how, bool(none), r is not None and bool(of(eng.labs(r, st) | eng.deep_labs(r, st)))
  for (kind, var, f, w), (how, none, depends) in R.parallel(go, todo):
    if how not in ('done', 'raises'): continue
    n += 1
    if w is None:
      if depends: rep.add('influence', NAMES[f], 'what %s returns depends on the progress display given' % NAMES[f])
    elif how == 'raises' or none: rep.add('ways', '%s|%s' % (NAMES[f], ways[w][0]), '%s fails when the progress display asked for is %s' % (NAMES[f], ways[w][0]))
  # a part of a display is the same display over its share
  L, U = {(('l', 1),): 1}, {(('u', 1),): 1}
  def at(f): return plus(L, times(plus(U, L, -1), f))
  cases = [('subset', ('a', 'b'), at({(('a', 1),): .01}), at({(('b', 1),): .01})), ('part', ('i', 'n'), at({(('i', 1), ('n', -1)): 1.}), at({(('i', 1), ('n', -1)): 1., (('n', -1),): 1.}))]
  for f, args, lo, up in cases:
    x, st = shown()
    if x is None: continue
    r, st, how = p.call(f, [x] + [number(a) for a in args], st=st, salt=5)
    if r is None:
      if how == 'raises': rep.add('share', f, 'a display cannot be divided: %s fails' % f)
      continue
    for o in r.objs:
      if o.kind != 'inst': continue
      n += 1
      g = eng.getf(st, o, 'pbar')
      if g is not None and not (g.objs & d.objs): rep.add('share', f + '|display', 'PBar.%s gives a part of another display' % f)
      for field, want in (('lower', lo), ('upper', up)):
        t = eng.getf(st, o, field)
        got = poly(eng.term(t, st)) if t is not None else None
        if got is not None and not same(got, want): rep.add('share', '%s|%s' % (f, field), 'PBar.%s: the %s end of the part does not lie where the arguments say' % (f, field))
  told = []
  def lis(eng, kind, node, e):
    if kind == 'method' and e['name'] == 'update' and e['recv'].objs <= d.objs: told.append(eng.term(e['args'][0], e['st']) if e['args'] else None)
  x, st = shown()
  if x is not None:
    r, st, how = p.call('update', [x, number('x')], st=st, salt=6, listeners=[lis])
    if how == 'raises': rep.add('share', 'update', 'PBar.update fails')
    elif how == 'done' and not told: rep.add('share', 'update|display', 'PBar.update does not reach the display')
    want = at({(('x', 1),): .01}); n += 1
    if told and all(t is not None for t in told):
      ps = [poly(y) for t in told for y in subterms(t)]
      if not any(q is not None and same(q, want) for q in ps): rep.add('share', 'update|position', 'PBar.update: the position shown is not the one that the share of the display and the progress made give')
  rep.obligations += n
  rep.floor('ways', n, 25)

def subterms(t):
  yield t
  for x in t:
    if isinstance(x, tuple): yield from subterms(x)
def poly(t):
  """A term as a polynomial {((variable, exponent), ...): coefficient}, or None."""
  from ..terms import num
  if not isinstance(t, tuple) or not t: return None
  v = num(t)
  if v is not None: return {(): v} if v else {}
  if t[0] == 'sym': return {((t[1], 1),): 1.}
  h, a = t[0].removeprefix('b') if isinstance(t[0], str) else '', t[1:]
  if h in ('Add', 'Sub', 'Mult', 'Div') and len(a) == 2:
    x, y = poly(a[0]), poly(a[1])
    if x is None or y is None: return None
    if h == 'Add': return plus(x, y)
    if h == 'Sub': return plus(x, y, -1)
    if h == 'Mult': return times(x, y)
    if len(y) != 1: return None
    (m, c), = y.items()
    return times(x, {tuple((v, -e) for v, e in m): 1. / c})
  return None
def plus(a, b, k=1):
  out = dict(a)
  for m, c in b.items(): out[m] = out.get(m, 0) + k * c
  return {m: c for m, c in out.items() if abs(c) > 1e-12}
def times(a, b):
  out = {}
  for m, c in a.items():
    for q, e in b.items():
      x = {}
      for v, k in m + q: x[v] = x.get(v, 0) + k
      key = tuple(sorted((v, k) for v, k in x.items() if k)); out[key] = out.get(key, 0) + c * e
  return out
def same(a, b):
  b = {tuple(sorted(m)): c for m, c in b.items()}
  return not any(abs(c) > 1e-9 for c in plus(a, b, -1).values())
