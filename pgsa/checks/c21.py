"""C21: failures surface as the intended exception.

Rules:
 - names: every name a function takes from outside is bound in its module after import (including deletions) or a builtin;
 - imports: a name imported from the package exists there; a module imported unguarded exists on Python 3;
 - raise: what is raised is an exception (not NotImplemented, a string or a number);
 - format: a constant % format has as many directives as arguments and only valid ones; the constant message of a
   raised exception that has %s/%d directives is formatted;
 - calls: on no analysed path does a call of a package function certainly not fit its signature."""
import ast, builtins, glob, json, os, re, sys
from .. import runner as R, flow, reading, scopes
from ..engine import where, qualname, src, has_yield

PY2 = {'httplib', 'urllib2', 'urlparse', 'StringIO', 'cStringIO', 'SocketServer', 'BaseHTTPServer', 'SimpleHTTPServer', 'ConfigParser', 'Queue', 'cPickle', 'Tkinter', 'commands', 'thread', 'HTMLParser', 'Cookie', 'cookielib', 'xmlrpclib', 'anydbm', 'sets', 'exceptions', 'new', 'md5', 'sha'}
SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)?', re.S)
VALID = 'diouxXeEfFgGcrsa%'

def fq(node):
  m = node._mod.name
  return '%s.%s' % (m, qualname(node))

def parse_fmt(s):
  """(number of arguments, named?, error) of a % format string."""
  n = 0; named = False
  for m in SPEC.finditer(s):
    c = m.group('conv')
    if c is None: return n, named, 'incomplete format'
    if c not in VALID: return n, named, 'unsupported format character %r' % c
    if c == '%': continue
    if m.group('key') is not None: named = True
    n += 1 + (m.group('width') == '*') + (m.group('prec') == '*')
  return n, named, None

def guarded_import(n):
  """Inside a try whose handlers may catch ImportError, or under a condition of its own."""
  p = getattr(n, '_parent', None); ch = n
  while p is not None:
    if isinstance(p, ast.Try) and ch in p.body:
      for h in p.handlers:
        t = h.type
        names = [t] if not isinstance(t, ast.Tuple) else t.elts
        if t is None or any(isinstance(x, ast.Name) and x.id in ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException') for x in names): return True
    if isinstance(p, ast.ExceptHandler): return True
    if isinstance(p, ast.If) and 'version' in src(p.test): return True
    ch = p; p = getattr(p, '_parent', None)
  return False

def guessed(eng, node, objs):
  """The callee is a guess of the typing, not a known function: a symbolic object, or the class of an object of
  which a subclass with a constructor of its own may be the real class."""
  if any(o.kind in ('sym', 'unk') for o in objs): return True
  f = node.func if isinstance(node, ast.Call) else None
  fs = []
  for o in objs:
    if o.kind == 'bound':
      nm = o.info['func'].info.get('name') if not isinstance(o.info['func'], str) else o.info['func']
      if nm == '__call__': return True     # an instance called: its type is a guess
      if nm == '__init__': fs += [x if x.kind == 'class' else x.info.get('cls') for x in o.info['me'].objs if x.kind in ('class', 'inst')]
    else: fs.append(o)
  objs = [o for o in fs if o is not None]
  istype = (isinstance(f, ast.Call) and src(f.func) == 'type') or (isinstance(f, ast.Attribute) and f.attr == '__class__')
  if istype or isinstance(f, ast.Name):
    for o in objs:
      if o.kind != 'class': continue
      if not istype and f.id == o.info.get('name'): continue
      for c in eng.intern.values():
        if c.kind == 'class' and c is not o and eng.issub(c, o) and '__init__' in own(eng, c): return True
  return False

def own(eng, c):
  n = c.info.get('node')
  return {s.name for s in n.body if isinstance(s, ast.FunctionDef)} if n is not None else set()

def nonstr(v):
  """What v certainly is, if it is certainly not a string and cannot be added to one."""
  ks = set()
  for o in v.objs:
    x = o.info.get('value') if o.kind == 'const' else None
    t = o.info.get('type') if o.kind == 'sym' else None
    if o.kind == 'const' and (x is None or isinstance(x, (bool, int, float))): ks.add(type(x).__name__)
    elif o.kind in ('list', 'tuple', 'dict', 'set', 'bound', 'class', 'func'): ks.add(o.kind)
    elif isinstance(t, str) and (t in ('num', 'int') or t.startswith(('tuple', 'list:', 'dict'))): ks.add(t)
    else: return None
  return '/'.join(sorted(ks)) or None

def notnumber(v):
  ks = set()
  for o in v.objs:
    x = o.info.get('value') if o.kind == 'const' else None
    t = o.info.get('type') if o.kind == 'sym' else None
    if o.kind == 'const' and (x is None or isinstance(x, str)): ks.add('a string' if x is not None else 'None')
    elif o.kind in ('list', 'tuple', 'dict', 'set', 'bound', 'class', 'func'): ks.add('a ' + o.kind)
    elif isinstance(t, str) and (t in ('str', 'Var', 'Axis', 'Dataset') or t.startswith(('tuple', 'list:', 'dict'))): ks.add('a ' + t)
    else: return None
  return '/'.join(sorted(ks)) or None

def nottuple(o):
  t = str(o.info.get('type')) if o.kind == 'sym' else None
  return o.kind in ('scalar', 'list', 'bound', 'func', 'arr') or o.kind == 'const' and not isinstance(o.info['value'], tuple) or t in ('str', 'num', 'int', 'Var', 'Axis', 'Dataset', 'arr')

def typed_format(eng, node, d, out):
  """The values formatted, by what the analysis knows of them."""
  if d['args'] is None: return
  fmts = [o.info['value'] for o in d['fmt'].objs if o.kind == 'const' and isinstance(o.info['value'], str)]
  if len(fmts) != len(d['fmt'].objs): return
  for s in fmts:
    k, named, err = parse_fmt(s)
    if err or named: return
    convs = [m.group('conv') for m in SPEC.finditer(s) if m.group('conv') != '%']
    if len(convs) != k: return
    objs = d['args'].objs
    bad = None
    if objs and all(o.kind == 'tuple' for o in objs):
      for o in objs:
        its = eng.seq(o, d["st"])
        if its is None: return
        if len(its) != k: bad = 'takes %d values, with %d' % (k, len(its))
        else:
          for c, v in zip(convs, its):
            w = notnumber(v) if c in 'diouxXeEfFgG' else None
            if w: bad = '%%%s is given %s' % (c, w)
    elif objs and all(o.kind == 'sym' and str(o.info.get('type')).startswith('tuple') for o in objs):
      bad = 'is given a whole tuple as its values'
    elif k != 1 and objs and all(nottuple(o) for o in objs):
      bad = 'takes %d values, with one' % k
    elif k == 1 and convs[0] in 'diouxXeEfFgG':
      w = notnumber(d['args'])
      if w: bad = '%%%s is given %s' % (convs[0], w)
    if bad: out.setdefault((fq(node), s[:40]), ('bad-format', '%s formats %r: %s' % (fq(node), s, bad), where(node)))

def self_attributes(rep, eng, prog):
  """self.x in a class all of whose bases are in the package: x is a field of a related class, or is stored on some object."""
  stores = set(dir(type)) | set(dir(BaseException)); words = set()
  for m in prog.modules.values():
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): stores.add(n.attr)
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant): stores.add(n.args[1].value)
      elif isinstance(n, ast.keyword) and n.arg: words.add(n.arg)
      elif isinstance(n, ast.arg): words.add(n.arg)
      elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier(): words.add(n.value)
  classes = [o for o in eng.intern.values() if o.kind == 'class' and o.info.get('node') is not None]
  fields = {c: {k for k in (eng.base.get(c) or {}) if isinstance(k, str)} for c in classes}
  mro = {c: [d for d in eng.mro(c)] for c in classes}
  def closed(c):
    for d in mro[c]:
      n = d.info.get('node')
      if n is None: return False
      if len([b for b in n.bases if not (isinstance(b, ast.Name) and b.id == 'object')]) != sum(1 for b in d.info.get('bases', []) if b.kind == 'class' and b.info.get('node') is not None): return False
    return True
  dyn = {c for c in classes if any('__getattr__' in fields[d] for d in mro[c] if d in fields)}
  cnt = 0
  for c in classes:
    fam = set()
    for e in classes:
      if c in mro[e]: fam.update(mro[e])
    if not all(closed(d) for d in fam if d in fields): continue
    names = set(stores)
    for d in fam: names |= fields.get(d, set())
    if c in dyn: names |= words
    for fn in c.info['node'].body:
      if not isinstance(fn, ast.FunctionDef) or not fn.args.args: continue
      if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list): continue
      s = fn.args.args[0].arg
      for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == s:
          cnt += 1
          if n.attr not in names: rep.add('missing-attribute', '%s|%s' % (fq(fn), n.attr), '%s reads %s, which no related class defines and nothing assigns' % (fq(fn), src(n)), where(n))
  return cnt

def numpy_attributes(rep, prog):
  with open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data', 'libnames.json')) as f: lib = {k: set(v) for k, v in json.load(f)['numpy'].items()}
  cnt = 0
  for m in prog.modules.values():
    alias = {}
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Import):
        for a in n.names:
          if a.name in lib and (a.asname or '.' not in a.name): alias[a.asname or a.name] = a.name
      elif isinstance(n, ast.ImportFrom) and n.module in lib and n.level == 0:
        for a in n.names:
          cnt += 1
          if n.module + '.' + a.name in lib: alias[a.asname or a.name] = n.module + '.' + a.name
          elif a.name != '*' and a.name not in lib[n.module] and not guarded_import(n): rep.add('missing-name', '%s|%s.%s' % (fq(n), n.module, a.name), '%s imports %s from %s, which does not have it' % (fq(n), a.name, n.module), where(n))
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias and isinstance(n.ctx, ast.Load) and not locally_assigned(n.value, n.value.id):
        cnt += 1
        mod = alias[n.value.id]
        if n.attr not in lib[mod] and mod + '.' + n.attr not in lib: rep.add('missing-attribute', '%s|%s.%s' % (fq(n), mod, n.attr), '%s uses %s.%s, which does not exist' % (fq(n), mod, n.attr), where(n))
  return cnt

def locally_assigned(n, name):
  p = n
  while p is not None:
    if isinstance(p, (ast.FunctionDef, ast.Lambda)):
      for b in scopes.binds(p)[0].get(name, ()):
        if not isinstance(b, (ast.Import, ast.ImportFrom)): return True
    p = getattr(p, '_parent', None)
  return False

def is_exc_name(n):
  o = getattr(builtins, n, None)
  return isinstance(o, type) and issubclass(o, BaseException)

def run(rep):
  eng = R.engine()
  prog = eng.prog
  cext = {os.path.basename(f).split('.')[0] for f in glob.glob(os.path.join(prog.repo, 'pygeode', '**', '*.so'), recursive=True)}
  csrc = set(re.findall(r"Extension\s*\(\s*(?:name\s*=\s*)?['\"]([\w.]+)['\"]", open(os.path.join(prog.repo, 'setup.py')).read())) if os.path.exists(os.path.join(prog.repo, 'setup.py')) else set()
  cmods = cext | {c.split('.')[-1] for c in csrc}
  st0 = eng.new_state()
  globs = {}
  def modglobals(name):
    if name not in globs:
      mo = eng.intern.get(('module', name))
      globs[name] = set(k for k, v in (eng.base.get(mo) or {}).items() if isinstance(k, str)) if mo is not None else None
    return globs[name]
  nnames = nraise = nfmt = nimp = nfun = 0
  for m in prog.modules.values():
    G = modglobals(m.name)
    # ---- names
    if G:
      for fn in scopes.top_functions(m.tree):
        nfun += 1
        declared = set()
        for w in ast.walk(fn):
          if isinstance(w, ast.Global): declared.update(w.names)
        for nm in scopes.free_names(fn):
          nnames += 1
          if nm.id in G or nm.id in declared or hasattr(builtins, nm.id) or nm.id in ('__file__', '__name__', '__doc__', '__path__', '__class__', '__package__', '__spec__'): continue
          rep.add('undefined-name', '%s|%s' % (fq(nm), nm.id), 'name %r is not defined in %s when %s runs' % (nm.id, m.name, qualname(nm)), where(nm))
    for n in ast.walk(m.tree):
      # ---- imports
      if isinstance(n, ast.ImportFrom):
        base = resolve(m, n)
        for a in n.names:
          nimp += 1
          if guarded_import(n): continue
          if base is None or not base.startswith('pygeode'):
            if base and base.split('.')[0] in PY2: rep.add('missing-module', '%s|%s' % (fq(n), base), '%s imports %s, which does not exist on Python 3' % (fq(n), base), where(n))
            continue
          if base not in prog.modules:
            if base.split('.')[-1] in cmods: continue
            rep.add('missing-module', '%s|%s' % (fq(n), base), '%s imports from %s, which is not in the package' % (fq(n), base), where(n)); continue
          g = modglobals(base)
          if a.name == '*' or g is None or a.name in g or (base + '.' + a.name) in prog.modules or a.name in cmods: continue
          if hasmodgetattr(prog.modules[base]): continue
          rep.add('missing-name', '%s|%s.%s' % (fq(n), base, a.name), '%s imports %s from %s, which does not define it' % (fq(n), a.name, base), where(n))
      elif isinstance(n, ast.Import):
        for a in n.names:
          nimp += 1
          top = a.name.split('.')[0]
          if guarded_import(n): continue
          if top in PY2: rep.add('missing-module', '%s|%s' % (fq(n), a.name), '%s imports %s, which does not exist on Python 3' % (fq(n), a.name), where(n))
          elif top == 'pygeode' and a.name not in prog.modules and a.name.split('.')[-1] not in cmods:
            rep.add('missing-module', '%s|%s' % (fq(n), a.name), '%s imports %s, which is not in the package' % (fq(n), a.name), where(n))
      # ---- raise
      elif isinstance(n, ast.Raise) and n.exc is not None:
        nraise += 1
        x = n.exc
        f = x.func if isinstance(x, ast.Call) else x
        if isinstance(x, (ast.Constant, ast.JoinedStr)) or (isinstance(x, ast.BinOp) and isinstance(x.left, (ast.Constant, ast.JoinedStr))):
          rep.add('raise-nonexception', '%s|%s' % (fq(n), 'literal'), '%s raises a value that is not an exception: %s' % (fq(n), src(x)), where(n))
        elif isinstance(f, ast.Name) and hasattr(builtins, f.id) and not is_exc_name(f.id) and not locally_bound(n, f.id) and f.id not in (G or ()):
          rep.add('raise-nonexception', '%s|%s' % (fq(n), f.id), '%s raises %s, which is not an exception' % (fq(n), src(x)), where(n))
        if isinstance(x, ast.Call):
          for a in x.args[:1]:
            if isinstance(a, ast.Constant) and isinstance(a.value, str) and re.search(r'%[-#0 +]*\d*(\.\d+)?[sdrfgi](?![a-zA-Z])', a.value.replace('%%', '')):
              rep.add('unformatted-message', '%s|%s' % (fq(n), a.value[:40]), 'the message of the exception raised in %s is never formatted: %r' % (fq(n), a.value), where(n))
      # ---- formats
      elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        nfmt += 1
        k, named, err = parse_fmt(n.left.value)
        if err: rep.add('bad-format', '%s|%s' % (fq(n), n.left.value[:40]), '%s formats %r: %s' % (fq(n), n.left.value, err), where(n)); continue
        r = n.right
        if named: continue
        have = None
        if isinstance(r, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.elts): have = len(r.elts)
        elif isinstance(r, (ast.Constant, ast.JoinedStr, ast.List, ast.ListComp, ast.Compare)): have = 1
        else:
          # values left outside the parentheses: E('%s %s' % a, b)
          c = n._parent
          if isinstance(c, ast.Call) and c.args and c.args[0] is n and isinstance(c._parent, ast.Raise) and k == len(c.args) > 1 and isinstance(r, (ast.Name, ast.Attribute, ast.Call)): have = 1
        if have is not None and have != k: rep.add('bad-format', '%s|%s' % (fq(n), n.left.value[:40]), '%s formats %r, which takes %d values, with %d' % (fq(n), n.left.value, k, have), where(n))
  # ---- attributes of self, and of numpy
  rep.floor('self_attributes_resolved', self_attributes(rep, eng, prog), 700)
  rep.floor('numpy_attributes_resolved', numpy_attributes(rep, prog), 200)
  # ---- locals no path has bound
  nun = 0
  for m in prog.modules.values():
    for fn in ast.walk(m.tree):
      if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
        nun += 1
        for n, definite in flow.unbound(fn):
          if definite: rep.add('unbound-local', '%s|%s' % (fq(n), n.id), '%s reads %r, which no path to it has assigned' % (fq(n), n.id), where(n))
  rep.floor('functions_flow_analysed', nun, 400)
  # ---- calls, on the paths of every public operation and reader
  roots = R.roots(eng); targets = reading.targets(eng)
  items = [('root', i) for i in range(len(roots))] + [('reader', i) for i in range(len(targets))]
  def go(it):
    kind, i = it; out = {}; n = [0, 0]
    def lis(eng, k, node, d):
      if k == 'call': n[0] += 1
      elif k == 'strformat': n[1] += 1; typed_format(eng, node, d, out)
      elif k == 'stradd':
        l, r = nonstr(d['left']), nonstr(d['right'])
        if l or r: out.setdefault((fq(node), 'string concatenation'), ('bad-format', '%s adds a string and %s: %s' % (fq(node), l or r, src(node, 80)), where(node)))
      elif k == 'dead_call' and guessed(eng, node, d['objs']): return
      elif k == 'dead_call': out.setdefault((fq(node), d['why']), ('bad-call', 'in %s the call %s cannot succeed: %s (reached through %s)' % (fq(node), src(node, 80), d['why'], ' > '.join(str(c) for c in eng.chain()[-3:])), where(node)))
    if kind == 'root': eng.listeners = [lis]; R.run_root(eng, roots[i])
    else:
      c, mm, fo = targets[i]; heavy = c.info['qual'].startswith(R.HEAVY)
      eng.listeners = []
      s, st, how = reading.make(eng, c, heavy)
      eng.listeners = [lis]
      reading.read(eng, c, mm, fo, s, st, heavy)
    return n, list(out.items())
  ncalls = nf = 0
  for it, (n, hits) in R.parallel(go, items):
    ncalls += n[0]; nf += n[1]
    for (q, why), (rule, text, loc) in hits: rep.add(rule, '%s|%s' % (q, why), text, loc)
  rep.floor('formats_typed', nf, 100)
  rep.floor('functions_resolved', nfun, 500)
  rep.coverage['names_resolved'] = nnames; rep.coverage['imports_checked'] = nimp
  rep.floor('raises_checked', nraise, 60)
  rep.floor('formats_checked', nfmt, 80)
  rep.floor('calls_examined', ncalls, 10000)
  rep.explanation = 'Name, import, raise and format rules over every function of the package; call-signature rule over every call on the paths of the public operations and readers.'

def resolve(m, n):
  if n.level == 0: return n.module
  parts = m.name.split('.')
  if not m.rel.endswith('__init__.py'): parts = parts[:-1]
  parts = parts[:len(parts) - (n.level - 1)]
  return '.'.join(parts + ([n.module] if n.module else []))

def hasmodgetattr(m): return any(isinstance(s, ast.FunctionDef) and s.name == '__getattr__' for s in m.tree.body)

def locally_bound(n, name):
  p = getattr(n, '_parent', None)
  while p is not None:
    if isinstance(p, (ast.FunctionDef, ast.Lambda)):
      b, g = scopes.binds(p)
      if name in b: return True
    p = getattr(p, '_parent', None)
  return False
