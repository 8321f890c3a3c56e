"""C20: results are a function of the inputs only.

 - no value an operation returns or a reader delivers is computed from the clock, unseeded random numbers, the process
   or the address or hash of an object (data flow through every public operation and reader);
 - wherever a set or a directory listing is iterated (the collections are typed by interpretation), the order it happens
   to have does not show: it is sorted, folded, stored by key or only counted before anything is returned or built;
 - nothing is ordered by the address or hash of an object, and no table that outlives a call is looked up by address."""
import ast, re
from .. import runner as R, reading, ops
from ..engine import where, qualname
from ..order import Order, fn_of, inside

SOURCE = re.compile(r'^(numpy\.random\.(?!seed$|RandomState$|default_rng$|Generator$|SeedSequence$|PCG64$|MT19937$|get_state$|set_state$)|random\.(?!seed$)|time\.(time|time_ns|monotonic|perf_counter|process_time|clock|localtime|gmtime|ctime|asctime)|datetime\.(datetime|date)\.(now|today|utcnow)|os\.(getpid|urandom|times|getppid|getloadavg)|uuid\.|secrets\.)')
SEEDABLE = re.compile(r'^(numpy\.random\.(RandomState|default_rng|seed|SeedSequence|PCG64|MT19937)|random\.(Random|seed))$')
LISTING = re.compile(r'^(glob\.(glob|iglob)|os\.(listdir|scandir|walk))$')
BUILT = ('pygeode.var.Var', 'pygeode.axis.Axis', 'pygeode.dataset.Dataset', 'pygeode.view.View')
# documented to make synthetic data up
EXEMPT = ('pygeode.tutorial',)

def number(eng):
  """Position of every syntax node, the same in every worker."""
  ids = {}; nodes = []
  for m in sorted(eng.prog.modules):
    for n in ast.walk(eng.prog.modules[m].tree): ids[id(n)] = len(nodes); nodes.append(n)
  return ids, nodes

def orderkey(call):
  """The key function of a sort orders by address or hash."""
  for k in call.keywords:
    if k.arg != 'key': continue
    v = k.value
    if isinstance(v, ast.Name) and v.id in ('id', 'hash'): return v.id
    if isinstance(v, ast.Lambda):
      b = v.body.elts[0] if isinstance(v.body, ast.Tuple) and v.body.elts else v.body
      if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ('id', 'hash'): return b.func.id

def idkey(node):
  """The subscript stored to is made of id(...), in place or through a local name."""
  fn = fn_of(node)
  def has(e): return any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'id' for c in ast.walk(e))
  for t in getattr(node, 'targets', None) or [node]:
    for x in ast.walk(t):
      if isinstance(x, ast.Subscript):
        if has(x.slice): return True
        ns = {n.id for n in ast.walk(x.slice) if isinstance(n, ast.Name)}
        if fn is not None and any(isinstance(a, ast.Assign) and has(a.value) and ns & {n.id for t2 in a.targets for n in ast.walk(t2) if isinstance(n, ast.Name)} for a in ast.walk(fn)): return True
      elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'setdefault' and x.args and has(x.args[0]): return True
  return False

def run(rep):
  eng = R.engine()
  ids, nodes = number(eng)
  targets = reading.targets(eng); roots = R.roots(eng)
  items = [('r', i) for i in range(len(targets))] + [('o', i) for i in range(len(roots))]
  obj = set()
  for b in BUILT: obj |= {c.info['qual'] for c in ops.subclasses(eng, b)}
  shared = set()
  for o, f in eng.base.items():
    if o.kind in ('dict', 'list'): shared.add(o)
  def go(it):
    k, i = it; sites = set(); calls = set(); hits = {}; n = [0]
    def lis(eng, kind, node, d):
      if kind == 'iterate':
        n[0] += 1
        v = d['iter'].objs
        if v and all(o.kind == 'set' for o in v): sites.add(('set', ids.get(id(d['expr']))))
      elif kind == 'extcall':
        nm = d['name']
        if isinstance(node, ast.Call):
          for a, e in zip(d['args'], node.args):
            if a.objs and all(o.kind == 'set' for o in a.objs): sites.add(('set', ids.get(id(e.value if isinstance(e, ast.Starred) else e))))
          if LISTING.match(nm): sites.add((nm, ids.get(id(node))))
          if nm in ('builtins.sorted', 'builtins.min', 'builtins.max') and orderkey(node): hits[('orderkey', qualname(node), orderkey(node))] = (where(node),)
          if SEEDABLE.match(nm):
            if all(eng.constval(a) is None for a in list(d['args']) + list(d['kw'].values())): hits[('unseeded', qualname(node), nm)] = (where(node),)
      elif kind == 'method':
        v = d['recv'].objs
        if d['name'] == 'pop' and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and v and all(o.kind == 'set' for o in v): sites.add(('set', ids.get(id(node.func.value))))
        if d['name'] in ('extend', 'join') and isinstance(node, ast.Call):
          for a, e in zip(d['args'], node.args):
            if a.objs and all(o.kind == 'set' for o in a.objs): sites.add(('set', ids.get(id(e))))
        if d['name'] == 'sort' and isinstance(node, ast.Call) and orderkey(node): hits[('orderkey', qualname(node), orderkey(node))] = (where(node),)
      elif kind == 'call' and isinstance(node, ast.Call):
        o = d['callee']
        for o in getattr(o, 'objs', None) or [o]:
          if o.kind == 'class' and o.info['qual'] in obj: calls.add((ids.get(id(node)), 'class', o.info['qual']))
          elif o.kind == 'bound': o = o.info.get('func') or o
          if o.kind == 'func': calls.add((ids.get(id(node)), 'func', ids.get(id(o.info['node']))))
      elif kind == 'new' and isinstance(node, ast.Call) and d['cls'].info['qual'] in obj: calls.add((ids.get(id(node)), 'class', d['cls'].info['qual']))
      elif kind == 'mutate' and d['obj'] in shared and d['obj'].kind == 'dict' and d.get('key') is not None:
        if idkey(node): hits[('address-table', qualname(node), '')] = (where(node),)
    eng.listeners = [lis]
    if k == 'r':
      c, m, fo = targets[i]; heavy = c.info['qual'].startswith(R.HEAVY); name = c.info['qual'] + '.' + m
      s, st, how = reading.make(eng, c, heavy)
      if s is not None: st = st.copy(); r, st, how = reading.read(eng, c, m, fo, s, st, heavy)
      else: r = None
    else:
      r, st, how = R.run_root(eng, roots[i]); name = roots[i].name
    eng.listeners = []
    if r is not None and not name.startswith(EXEMPT):
      for l in eng.labs(r, st) | eng.deep_labs(r, st):
        if l.startswith('op:') and SOURCE.match(l[3:]): hits[('source', name, l[3:])] = ('result of %s' % name,)
    return n[0], [s for s in sites if s[1] is not None], [c for c in calls if c[0] is not None and c[2] is not None], list(hits.items()), how
  sites = set(); callees = {}; done = iters = 0
  seen = {}
  for i, (n, s, c, hits, how) in R.parallel(go, items):
    iters += n; done += how == 'done'
    sites |= set(s)
    for cid, k, what in c: callees.setdefault(cid, set()).add((k, what))
    for (k, a, w), loc in hits: seen.setdefault((k, a, w), loc[0])
  for (k, a, w), loc in sorted(seen.items()):
    if k == 'source': rep.add('run-dependent-value', '%s|%s' % (a, w), 'what %s gives is computed from %s, which differs from run to run' % (a, w), loc)
    elif k == 'orderkey': rep.add('ordered-by-address', '%s|%s' % (a, w), '%s orders by %s(), which differs from run to run' % (a, w), loc)
    elif k == 'address-table': rep.add('table-by-address', a, '%s keeps entries by object address in a table that outlives the call: another object can get the same address' % a, loc)
  def resolve(call):
    s = callees.get(ids.get(id(call)), set())
    cl = sorted(w for k, w in s if k == 'class')
    if cl: return ('class', cl[0])
    fs = [w for k, w in s if k == 'func']
    if len(fs) == 1: return ('func', nodes[fs[0]])
  rev = {}
  for cid, ss in callees.items():
    for k, w in ss:
      if k == 'func': rev.setdefault(w, []).append(cid)
  public = {ids[id(r.func.info['node'])] for r in roots if r.func is not None and id(r.func.info['node']) in ids} | {ids[id(fo.info['node'])] for c, m, fo in targets if id(fo.info['node']) in ids}
  def callers(fn):
    i = ids.get(id(fn))
    if i in public: return None
    return [nodes[c] for c in sorted(rev.get(i, ()))]
  # unseeded generators: only those whose numbers reach a result are reported through the labels of the results
  labels = {w for (k, a, w) in seen if k == 'source'}
  for (k, a, w), loc in sorted(seen.items()):
    if k == 'unseeded' and w not in ('numpy.random.seed', 'random.seed'): rep.add('unseeded-generator', '%s|%s' % (a, w), '%s draws from %s without a fixed seed' % (a, w), loc)
  # sets and listings made where they are used need no typing
  for i, n in enumerate(nodes):
    if isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'frozenset') and n.args: sites.add(('set', i))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('glob', 'iglob', 'listdir', 'scandir') and not any(j == i for k, j in sites) and any(isinstance(x, ast.ImportFrom) and x.module in ('glob', 'os') and any(a.name == n.func.id for a in x.names) for x in ast.walk(fn_of(n) or n)): sites.add((n.func.id, i))
  nset = nlist = 0
  for kind, i in sorted(sites, key=lambda x: x[1]):
    e = nodes[i]
    if e._mod.name.startswith(R.SKIPCLS): continue
    nset += kind == 'set'; nlist += kind != 'set'
    for what, n in Order(resolve, callers).exposures(e):
      src = 'a set' if kind == 'set' else kind
      rep.add('arbitrary-order', '%s|%s|%s' % (qualname(e), src, what), 'the order of %s iterated in %s %s' % (src, qualname(e), what), where(n))
  rep.floor('operations_and_readers_analysed', len(items), 450)
  rep.floor('completed', done, 400)
  rep.floor('iterations_typed', iters, 1500)
  rep.coverage['set_iteration_sites'] = nset
  rep.coverage['listing_sites'] = nlist
  rep.explanation = 'Data flow from run-dependent sources to results; order-exposure analysis of every iteration over a set or directory listing.'
