"""C16: each calendar converts with its own rules.

Probes: for every concrete time axis class, small client programs construct an axis, convert values to dates and dates
to values with explicit and with default reference date and units, and use the calendar helpers; the analysis follows
them to the native calls and decides which routine is called, what is passed in which position and by which unit factor
the values are scaled.  The C side decides that each exported routine runs the core function of its own calendar, that
the arguments arrive at the parameters of the same meaning, and that the two directions of a calendar share their year
lengths and month tables."""
import ast
from .. import cast, cflow, ops, probe, runner as R
from ..report import Broken

FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
UNITS = {'seconds': 1., 'minutes': 60., 'hours': 3600., 'days': 86400.}
OWN = {'StandardTime': 'std', 'ModelTime365': '365', 'ModelTime360': '360', 'Yearless': 'yearless'}
HELPERS = {'standardtime': 'StandardTime', 'modeltime365': 'ModelTime365', 'modeltime360': 'ModelTime360', 'yearless': 'Yearless'}
REF = dict(zip(FIELDS, (21, 22, 23, 24, 25, 26)))
SELF = dict(zip(FIELDS, (11, 12, 13, 14, 15, 16)))
LENGTHS = {'std': {360}, '365': {360, 366}, '360': {365, 366}, 'yearless': {360, 365, 366}}

SRC = '''
def make(cls, vals):
  return cls(values=vals, units='hours', startdate=dict(year=11, month=12, day=13, hour=14, minute=15, second=16))
''' + '\n'.join('''
def to_date_%s(t, vals):
  return t.val_as_date(vals, dict(year=21, month=22, day=23, hour=24, minute=25, second=26), %r)
def to_value_%s(t, y, mo, d, h, mi, s):
  return t.date_as_val(dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s), dict(year=21, month=22, day=23, hour=24, minute=25, second=26), %r)
''' % (u, u, u, u) for u in UNITS) + '''
def to_date_default(t, vals): return t.val_as_date(vals)
def to_value_default(t, y, mo, d, h, mi, s): return t.date_as_val(dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s))
def own_dates(t): return t.val_as_date()
def own_values(t): return t.date_as_val()
def month_length(t, y, m): return t.days_in_month(y, m)
def day_of_year(t, vals): return t._getdoy(t.val_as_date(vals, allfields=True))
def show(t, v): return t.formatvalue(v)
def parse(t, s): return t.str_as_val('time', s)
def wrap(t, d):
  from pygeode.timeutils import wrapdate
  return wrapdate(t, d)
def relative(t, start):
  from pygeode.timeutils import reltime
  return reltime(t, start, 'days')
def difference(t, a, b):
  from pygeode.timeutils import date_diff
  return date_diff(t, a, b, 'days')
def spacing(t):
  from pygeode.timeutils import delta
  return delta(t)
def conform(t):
  from pygeode.timeutils import conform_values
  return conform_values(t, t)
def fields(t):
  from pygeode.timeutils import modify
  return modify(t, exclude='year')
'''
OTHERS = ('own_dates', 'own_values', 'month_length', 'day_of_year', 'show', 'parse', 'wrap', 'relative', 'difference', 'spacing', 'conform', 'fields')

def native(name):
  """(direction, suffix) of a native calendar routine."""
  n = str(name).split('.')[-1]
  for d in ('val_as_date', 'date_as_val'):
    if n.startswith(d + '_'): return d, n[len(d) + 1:]
  return None

def consts(av): return {o.info['value'] for o in av.objs if o.kind == 'const' and not isinstance(o.info['value'], (str, bool)) and o.info['value'] is not None}
def paths(av): return {o.info['path'].split('.')[0].split('[')[0] for o in av.objs if o.kind == 'sym'}

def factors(t):
  """Numbers a value term is multiplied / divided by."""
  m, d = set(), set()
  def go(x):
    if isinstance(x, tuple):
      if len(x) == 3 and x[0] in ('bMult', 'bDiv'):
        for i, y in enumerate(x[1:]):
          if isinstance(y, tuple) and y[:1] == ('c',) and isinstance(y[-1], (int, float)):
            if x[0] == 'bMult': m.add(float(y[-1]))
            elif i == 1: d.add(float(y[-1]))
      for y in x: go(y)
  go(t)
  return m, d

def run(rep):
  eng = R.engine()
  p = probe.Probe(eng, SRC, opaque={})
  classes = []
  for c in ops.subclasses(eng, 'pygeode.timeaxis.Time'):
    q = c.info['qual']; nm = q.split('.')[-1]
    if eng.classattr(c, '_val_as_date', p.st) is None or nm == 'CalendarTime': continue
    classes.append(c)
  byname = {}
  # ---- the routine pair of each class
  suffix = {}
  for c in classes:
    pair = {}
    for d in ('_val_as_date', '_date_as_val'):
      v = eng.classattr(c, d, p.st)
      names = set()
      for o in (v.objs if v is not None else ()):
        if o.kind == 'ext': names.add(native(o.info.get('name') or str(o).split()[-1]))
        else: names.add(None)
      pair[d[1:]] = names
    q = c.info['qual']
    s = set()
    for d, names in pair.items():
      for n in names:
        if n is None or n[0] != d:
          rep.add('wrong-routine', '%s|%s' % (q, d), '%s converts in direction %s with %s' % (q, d, n and '_'.join(n)))
        else: s.add(n[1])
    if len(s) != 1: rep.add('mixed-routines', q, '%s converts one way with the %s routines: the two directions disagree' % (q, ' and the '.join(sorted(s))))
    suffix[c] = next(iter(s)) if len(s) == 1 else None
    byname[q.split('.')[-1]] = c
  for nm, s in OWN.items():
    c = byname.get(nm)
    if c is None: continue
    if suffix[c] is not None and suffix[c] != s: rep.add('foreign-routine', c.info['qual'], '%s converts with the %s routines, which belong to another calendar' % (c.info['qual'], suffix[c]))
  bases = {byname[nm] for nm in OWN if nm in byname}
  for c in classes:
    mine = [b for b in eng.mro(c) if b in bases]
    if c in bases: mine = [b for b in mine if b is not c]
    for b in mine:
      if suffix[b] != suffix[c] or c in bases: rep.add('inherits-calendar', '%s|%s' % (c.info['qual'], b.info['name']), '%s derives from %s but is a different calendar' % (c.info['qual'], b.info['name']))
  used = {}
  for c in bases:
    if suffix[c] in used: rep.add('shared-routine', '%s|%s' % tuple(sorted((c.info['qual'], used[suffix[c]].info['qual']))), '%s and %s use the same routines' % (c.info['qual'], used[suffix[c]].info['qual']))
    used[suffix[c]] = c
  rep.floor('time_axis_classes', len(classes), 5)
  # ---- what reaches the routines
  def go(i):
    c = classes[i]; q = c.info['qual']; out = []; n = [0, 0]
    def add(rule, key, text): out.append((rule, '%s|%s' % (q, key), '%s: %s' % (q, text)))
    calls = []
    def lis(e, k, node, d):
      if k == 'extcall' and native(d['name']): n[0] += 1; calls.append((native(d['name']), list(d['args']), eng.chain()[-1] if eng.chain() else ''))
    def own(what):
      for (d, s), a, ch in calls:
        if suffix[c] is not None and s != suffix[c]: add('foreign-conversion', '%s|%s_%s' % (what, d, s), '%s converts with %s_%s, which belongs to another calendar' % (what, d, s))
    def call(f, *args):
      del calls[:]
      r, st, how = p.call(f, [t] + list(args), listeners=[lis], st=st0)
      own(f)
      if how != 'budget': n[1] += 1
      return r, st
    del calls[:]
    t, st0, how = p.call('make', [eng.av(c), eng.sym('vals', 'arr')], listeners=[lis])
    own('construction')
    if t is None:
      add('not-constructed', how, 'no axis of this class can be constructed from values, units and a reference date'); return n, out
    F = [eng.sym(x, 'arr') for x in ('f_year', 'f_month', 'f_day', 'f_hour', 'f_minute', 'f_second')]
    plain = not any('Seasonal' in str(k.info.get('qual')) for k in eng.mro(c))
    for u, fac in UNITS.items():
      r, st = call('to_date_' + u, eng.sym('v', 'arr'))
      hits = [x for x in calls if x[0][0] == 'val_as_date']
      if not hits: add('not-converted', 'val_as_date|%s' % u, 'converting values in %s to dates calls no native routine' % u)
      for (d, s), a, ch in hits:
        if len(a) != 14: continue
        for j, f in enumerate(FIELDS):
          k = consts(a[1 + j])
          if k != {REF[f]}: add('reference-date', 'val_as_date|%s' % f, 'the %s of the given reference date does not reach its place in the native routine (it receives %s)' % (f, sorted(k)))
        if 'v' not in paths(a[7]) and 'v' not in a[7].labs: add('values', 'val_as_date', 'the given values do not reach the native routine')
        m, dv = factors(a[7].term)
        if fac not in m and not (fac == 1. and not m) or (m - {fac}): add('unit-factor', 'val_as_date|%s' % u, 'values in %s are scaled to seconds by %s' % (u, sorted(m)))
        if plain and r is not None:
          for o in r.objs:
            if o.kind != 'dict': continue
            fs = eng.fields(st, o)
            for j, f in enumerate(FIELDS):
              v = fs.get(('k', f))
              if v is None: continue
              at = [FIELDS[x] for x in range(6) if a[8 + x].objs & v.objs]
              if at and at != [f]: add('field-order', 'val_as_date|%s' % f, 'the %s of the result is what the native routine stores as %s' % (f, '/'.join(at)))
      r, st = call('to_value_' + u, *F)
      hits = [x for x in calls if x[0][0] == 'date_as_val']
      if not hits: add('not-converted', 'date_as_val|%s' % u, 'converting dates to values in %s calls no native routine' % u)
      for (d, s), a, ch in hits:
        if len(a) != 14: continue
        for j, f in enumerate(FIELDS):
          k = consts(a[1 + j])
          if k != {REF[f]}: add('reference-date', 'date_as_val|%s' % f, 'the %s of the given reference date does not reach its place in the native routine (it receives %s)' % (f, sorted(k)))
          ps = {x for x in paths(a[7 + j]) if x.startswith('f_')}
          if plain and ps and ps != {'f_' + f}: add('field-order', 'date_as_val|%s' % f, 'the native routine receives %s as %s' % ('/'.join(sorted(ps)), f))
    # what the result of the native routine is scaled by
    done = set(); scal = []
    def lis2(e, k, node, d):
      if k == 'extcall' and native(d['name']) and native(d['name'])[0] == 'date_as_val' and len(d['args']) == 14: done.update(d['args'][13].objs)
      elif k == 'arith' and d['op'] in ('Mult', 'Div', 'FloorDiv'):
        for x, y, left in ((d['left'], d['right'], True), (d['right'], d['left'], False)):
          if x.objs & done:
            done.update(o for o in d['out'].objs if o.kind == 'arr')
            scal.append((d['op'] if left or d['op'] == 'Mult' else 'R' + d['op'], consts(y)))
    for u, fac in UNITS.items():
      done.clear(); del scal[:]
      p.call('to_value_' + u, [t] + F, listeners=[lis2], st=st0)
      if not done: continue
      bad = [(o, k) for o, k in scal if not (o == 'Div' and k == {fac}) and not (o == 'Mult' and k and all(abs(x * fac - 1) < 1e-12 for x in k))]
      if bad: add('unit-factor', 'date_as_val|%s' % u, 'seconds are scaled to %s by %s' % (u, ', '.join('%s %s' % (dict(Div='dividing by', Mult='multiplying by', FloorDiv='rounding down a division by').get(o, o), sorted(k) or '?') for o, k in bad)))
      elif fac != 1. and not scal: add('unit-factor', 'date_as_val|%s' % u, 'seconds are returned as %s without scaling' % u)
    # defaults
    for f, args, d in (('to_date_default', [eng.sym('v', 'arr')], 'val_as_date'), ('to_value_default', F, 'date_as_val')):
      r, st = call(f, *args)
      for (dd, s), a, ch in calls:
        if dd != d or len(a) != 14: continue
        for j, fl in enumerate(FIELDS):
          k = consts(a[1 + j])
          other = k & (set(SELF.values()) - {SELF[fl]})
          if other: add('reference-date', 'default %s|%s' % (d, fl), 'the %s of the axis reference date is taken from another field' % fl)
          if d == 'val_as_date' and SELF[fl] not in k and suffix[c] != 'yearless': add('reference-date', 'default %s|%s' % (d, fl), "without a reference date given, the axis's own %s is not used" % fl)
        if d == 'val_as_date':
          m, dv = factors(a[7].term)
          if m and 3600. not in m: add('unit-factor', 'default %s' % d, "without units given, values are not scaled by the axis's own units (hours) but by %s" % sorted(m))
    args = dict(month_length=[eng.sym('yr', 'int'), eng.sym('mn', 'int')], day_of_year=[eng.sym('v', 'arr')], show=[eng.sym('x', 'num')], parse=[eng.sym('s', 'str')],
                wrap=[eng.sym('dt', 'dict')], relative=[eng.sym('start', 'dict')], difference=[eng.sym('d1', 'dict'), eng.sym('d2', 'dict')])
    for f in OTHERS: call(f, *args.get(f, []))
    return n, out
  nn = nd = 0
  for i, (n, out) in R.parallel(go, list(range(len(classes)))):
    nn += n[0]; nd += n[1]
    for x in out: rep.add(*x)
  rep.floor('native_conversions_examined', nn, 150)
  rep.floor('probes_followed', nd, 60)
  # ---- helpers named after a calendar
  nh = 0
  for q, fo in ops.public_functions(eng):
    if not q.startswith('pygeode.timeaxis.'): continue
    nm = q.split('.')[-1]
    for pre, cls in HELPERS.items():
      if nm.startswith(pre) and cls in byname:
        root = R.Root(q, 'func', fo, None, False)
        eng.listeners = []
        r, st, how = R.run_root(eng, root)
        got = {o.info['cls'].info['qual'] for o in (r.objs if r is not None else ()) if o.kind == 'inst' and eng.issub(o.info['cls'], eng.find_class_any('pygeode.timeaxis.Time'))}
        nh += bool(got)
        for g in got:
          if g != byname[cls].info['qual']: rep.add('wrong-calendar', '%s|%s' % (q, g), '%s returns an axis of calendar %s' % (q, g))
  rep.floor('calendar_helpers', nh, 4)
  # ---- seasonal axes by calendar
  mo = eng.intern.get(('module', 'pygeode.timeaxis'))
  ns = 0
  def named(x):
    v = (eng.base.get(mo) or {}).get(x.id) if isinstance(x, ast.Name) else None
    os_ = list(v.objs) if v is not None else []
    return os_[0] if len(os_) == 1 and os_[0].kind == 'class' else None
  for d in ast.walk(eng.prog.modules['pygeode.timeaxis'].tree):
    pairs = []
    if isinstance(d, ast.Dict): pairs = list(zip(d.keys, d.values))
    elif isinstance(d, ast.Assign) and len(d.targets) == 1 and isinstance(d.targets[0], ast.Subscript): pairs = [(d.targets[0].slice, d.value)]
    for k, w in pairs:
      k, w = named(k), named(w)
      if k in bases and w is not None:
        ns += 1
        if not eng.issub(w, k): rep.add('seasonal-calendar', '%s|%s' % (k.info['name'], w.info['name']), 'the axis standing for %s in a table of calendars is not derived from it' % k.info['name'])
  rep.coverage['seasonal_axes'] = ns
  csource(rep, eng)
  rep.explanation = 'Every time axis class through client probes to the native calls; the native method table through the C syntax tree.'

def reach(F, f, seen=None):
  """Functions of the file reachable by reference from f (itself included)."""
  seen = seen if seen is not None else set()
  if f in seen or f not in F.funcs: return seen
  seen.add(f)
  for n in F.funcs[f].find('DeclRefExpr'):
    if n.refkind == 'FunctionDecl' and n.ref in F.funcs: reach(F, n.ref, seen)
  return seen

def literals(F, names):
  out = set(); tables = set()
  vars_ = set()
  for f in names:
    for n in F.funcs[f].walk():
      if n.kind == 'IntegerLiteral': out.add(int(n.value))
      elif n.kind == 'FloatingLiteral':
        try: out.add(float(n.value))
        except ValueError: pass
      elif n.kind == 'InitListExpr' and n.kids and all(k.strip().kind in ('IntegerLiteral', 'ImplicitValueInitExpr') for k in n.kids): tables.add(tuple(int(k.strip().value or 0) for k in n.kids))
      elif n.kind == 'DeclRefExpr' and n.refkind == 'VarDecl': vars_.add(n.refid)
  for g in F.decls:
    if g.kind == 'VarDecl' and g.id in vars_:
      for n in g.walk():
        if n.kind == 'IntegerLiteral': out.add(int(n.value))
        elif n.kind == 'InitListExpr' and n.kids and all(k.strip().kind in ('IntegerLiteral', 'ImplicitValueInitExpr') for k in n.kids): tables.add(tuple(int(k.strip().value or 0) for k in n.kids))
  return out, tables

def csource(rep, eng):
  F = cast.File(eng.prog.repo, 'pygeode/timeaxis.c')
  entries = method_table(F)
  cal = {n: f for n, f in entries.items() if native(n)}
  rep.floor('native_calendar_routines', len(cal), 8)
  cores = {}
  for name, f in cal.items():
    rs = reach(F, f)
    core = [g for g in rs if len(F.params(F.funcs[g])) >= 10]
    own = [g for g in core if native(g)]
    if own and name not in own: rep.add('native-table', '%s|%s' % (name, '/'.join(sorted(own))), 'the routine Python knows as %s runs %s' % (name, '/'.join(sorted(own))))
    elif len(own) > 1: rep.add('native-table', '%s|%s' % (name, '/'.join(sorted(own))), 'the routine Python knows as %s runs the functions of more than one calendar: %s' % (name, '/'.join(sorted(own))))
    cores[name] = reach(F, name) if name in F.funcs else rs
    # positions
    w = wrapper_order(F, rs)
    if w and name in F.funcs:
      params = [p.name for p in F.params(F.funcs[name])]
      for j, (parsed, passed) in enumerate(w):
        if j >= len(params): break
        if passed != j: rep.add('native-arguments', '%s|%d' % (name, j), 'argument %d that Python passes to %s arrives as parameter %d (%s)' % (j + 1, name, passed + 1, params[passed] if passed < len(params) else '?'))
      d = native(name)[0]
      want = ['n'] + ['i' + f for f in FIELDS] + (['val'] + list(FIELDS) if d == 'val_as_date' else list(FIELDS) + ['val'])
      if len(params) == len(want) and set(params) == set(want):
        for j, (a, b) in enumerate(zip(params, want)):
          if a != b: rep.add('native-arguments', '%s|%s' % (name, a), '%s takes %s where the other routines take %s' % (name, a, b))
  for name in sorted(cal):
    if name in F.funcs: seconds(rep, F, name)
  for s, banned in LENGTHS.items():
    t = {}
    for d in ('val_as_date', 'date_as_val'):
      n = '%s_%s' % (d, s)
      if n not in cores: continue
      lits, tables = literals(F, cores[n])
      bad = lits & banned
      if bad: rep.add('year-length', '%s|%s' % (n, sorted(bad)), '%s uses a year length of another calendar: %s' % (n, sorted(bad)))
      t[d] = {x for x in tables if len(x) >= 12}
    for x in sorted(set().union(*t.values())):
      bad = month_table(x, s)
      if bad: rep.add('month-table', '%s|%s' % (s, bad), 'a month table of calendar %s gives month %d %d days' % ((s,) + bad))
    if len(t) == 2 and t['val_as_date'] != t['date_as_val'] and all(t.values()): rep.add('month-table', s, 'the two directions of calendar %s use different month tables' % s)

MONTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
def month_table(x, s):
  """(month, days) that a table of the first days (or the lengths) of the months gets wrong, or None."""
  while len(x) > 1 and x[0] == 0 and x[1] == 0: x = x[1:]
  if s not in ('365', 'std') or min(x) < 0 or max(x) > 367: return None
  if x[0] in (0, 1) and all(a < b for a, b in zip(x, x[1:])): ms = [b - a for a, b in zip(x, x[1:])]
  elif all(20 <= a <= 40 for a in x[-12:]): ms = list(x[-12:])
  else: return None
  for i, m in enumerate(ms[:12]):
    if m != MONTHS[i] and not (s == 'std' and i == 1 and m == 29): return (i + 1, m)
  return None

SECONDS = dict(day=86400, hour=3600, minute=60, second=1)
def seconds(rep, F, name):
  """What each field of the date and of the reference date contributes to the other side of the conversion."""
  f = F.funcs[name]; P = F.params(f); d = native(name)[0]; s = name.rsplit('_', 1)[-1]
  if len(P) != 14: return
  sc = {0: 'n'}; ar = {7 if d == 'val_as_date' else 13: 'val'}
  for j, x in enumerate(FIELDS): sc[1 + j] = 'i' + x; ar[(8 if d == 'val_as_date' else 7) + j] = x
  def watch(n, v):
    k = v.c.get('val', 0) if 'val' not in v.u else 0
    if abs(k) != 1 or d != 'val_as_date': return
    rep.coverage['time_sums'] = rep.coverage.get('time_sums', 0) + 1
    for x in SECONDS:
      if v.c.get('i' + x) and 'i' + x not in v.u and v.c['i' + x] != k * SECONDS[x]:
        rep.add('seconds-per', '%s|i%s' % (name, x), '%s adds the %s of the reference date to the value as %d seconds each' % (name, x, v.c['i' + x] * k))
  out = cflow.Flow(F, watch).run(name, sc, ar)
  if not out.live: return
  if d == 'date_as_val':
    v = out.f['val']
    rep.coverage['time_sums'] = rep.coverage.get('time_sums', 0) + 1
    for x, n in SECONDS.items():
      for g, k in ((x, n), ('i' + x, -n)):
        what = ('the %s of the reference date' if g[0] == 'i' else 'the %s of the date') % x
        if g not in v.deps(): rep.add('field-ignored', '%s|%s' % (name, g), '%s does not use %s' % (name, what))
        elif g not in v.u and v.c[g] != k: rep.add('seconds-per', '%s|%s' % (name, g), '%s counts %s as %d seconds each, not %d' % (name, what, v.c[g], k))
    if s != 'yearless':
      for x in ('year', 'month'):
        for g in (x, 'i' + x):
          if g not in v.deps(): rep.add('field-ignored', '%s|%s' % (name, g), '%s does not use the %s of the %sdate' % (name, x, 'reference ' if g != x else ''))
        i = 'i' + x
        if x in v.c and i in v.c and x not in v.u and i not in v.u and v.c[x] != -v.c[i]: rep.add('reference-sign', '%s|%s' % (name, x), '%s counts the %s of the date and of the reference date differently (%d and %d seconds)' % (name, x, v.c[x], v.c[i]))
    for g, n in dict(year={'360': 360, '365': 365}.get(s), month={'360': 30}.get(s)).items():
      if n and g in v.c and g not in v.u and v.c[g] != n * 86400: rep.add('seconds-per', '%s|%s' % (name, g), '%s counts each %s as %.6g days, not %d' % (name, g, v.c[g] / 86400, n))
    if not v.x and v.c.get(None): rep.add('offset', name, '%s is off by %s seconds for every date' % (name, v.c[None]))
  else:
    need = {'val', 'isecond'}
    for x in ('second', 'minute', 'hour', 'day', 'month', 'year'):
      if s == 'yearless' and x in ('month', 'year'): break
      if x != 'second': need = need | {'i' + x} if not (s == 'yearless' and x in ('month', 'year')) else need
      w = set(need) | ({'iyear'} if x == 'year' else set())
      # the day is found within the year, so it follows the month of the reference date too
      if x == 'day' and s != 'yearless': w.add('imonth')
      for g in sorted(w - out.f[x].deps()):
        rep.add('field-ignored', '%s|%s|%s' % (name, x, g), '%s works out the %s without %s' % (name, x, 'the value' if g == 'val' else 'the %s of the reference date' % g[1:]))

def method_table(F):
  """Python name -> C function of the module's PyMethodDef table."""
  out = {}
  for g in F.decls:
    if g.kind == 'VarDecl' and g.type and 'PyMethodDef' in g.type:
      for row in g.find('InitListExpr'):
        strs = [k.strip() for k in row.kids]
        if strs and strs[0].kind == 'StringLiteral' and len(strs) > 1 and strs[1].kind == 'DeclRefExpr': out[eval(strs[0].value)] = strs[1].ref
  return out

def wrapper_order(F, names):
  """[(parse position, position in the core call)] of the wrapper among the functions, or None."""
  for f in names:
    fn = F.funcs[f]
    parse = [n for n in fn.find('CallExpr') if (cast.callee(n) or '').startswith(('PyArg_ParseTuple', '_PyArg_ParseTuple'))]
    if not parse: continue
    parsed = []
    for a in cast.args(parse[0])[2:]:
      x = a.strip()
      if x.kind == 'UnaryOperator' and x.op == '&':
        y = x.kids[0].strip()
        if y.ref and not y.ref.endswith('_Type'): parsed.append(y.refid)
    # pointer variables taken from an array variable
    src = {}
    for n in fn.find('BinaryOperator', 'VarDecl'):
      if n.kind == 'BinaryOperator':
        if n.op != '=': continue
        l, r = n.kids[0].strip(), n.kids[1]
        lid = l.refid if l.kind == 'DeclRefExpr' else None
      else: lid, r = n.id, (n.kids[-1] if n.kids else None)
      if lid is None or r is None: continue
      refs = {k.refid for k in r.find('DeclRefExpr') if k.refkind in ('VarDecl', 'ParmVarDecl')} & set(parsed)
      if len(refs) == 1: src.setdefault(lid, set()).update(refs)
    for n in fn.find('CallExpr'):
      as_ = cast.args(n)
      if len(as_) != len(parsed): continue
      ids = []
      for a in as_:
        x = {k.refid for k in a.find('DeclRefExpr') if k.refkind in ('VarDecl', 'ParmVarDecl')}
        y = set()
        for i in x: y |= src.get(i, {i})
        y &= set(parsed)
        ids.append(next(iter(y)) if len(y) == 1 else None)
      if None in ids or len(set(ids)) != len(ids): continue
      return [(j, ids.index(pid)) for j, pid in enumerate(parsed)]
  return None
