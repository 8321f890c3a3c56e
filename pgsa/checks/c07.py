"""C07: NaN-aware forms skip missing values in every step, plain forms in none.

Reductions are followed over two marked parts of their input; the marks of missing places must be gone from the result of
NaN-aware forms, and there for plain ones; what a NaN-aware total is divided by must have been counted at the same places.
The native partial sums are followed in their syntax tree with a missing and with an ordinary value."""
from .. import cast, chunks, runner as R
from ..report import Broken

DATA = ('temp', 'other')
def run(rep):
  eng = R.engine()
  undecided = {}
  try: work(rep, eng, undecided)
  finally: eng.tm = None; eng.exactgen = False
  native(rep, eng.prog.repo, undecided)
  rep.coverage['undecided'] = sorted(undecided)[:40]
  rep.assumptions = ['numpy functions whose name says so leave missing values out, and the others carry them into their result']
  rep.explanation = 'Every reduction, climatology and statistic followed over two marked parts of its input; NaN-aware results carry no mark of a missing place and their divisors were counted without them, plain results carry both parts\' marks.'

JOINT = ('correlate', 'regress', 'paired_difference')
COUNTED = ('mean', 'stdev', 'variance', 'count', 'correlate', 'regress', 'difference', 'paired_difference', 'isnonzero')
def work(rep, eng, undecided):
  ops = chunks.operations()
  p = chunks.setup(eng, [o[0] for o in ops])
  items = [(i, d) for i, o in enumerate(ops) for d in ('time', 'pres', 'lat') if d in o[2]]
  def go(it):
    i, d = it
    runs, how = chunks.follow(eng, p, i, d, ops[i][4])
    return [vars(r) for r in runs], how
  n = 0; divs = 0
  for (i, d), (runs, how) in R.parallel(go, items):
    expr, fam, axes, aware, direct = ops[i]
    if how != 'done' or not runs: undecided['%s over %s: %s' % (expr, d, how)] = 1; continue
    for r in runs:
      if r['how'] != 'done' or r['lost']: undecided['%s over %s: %s' % (expr, d, r['how'])] = 1; continue
      n += 1; divs += len(r['divs'])
      who = r['cls'] if not direct else 'pygeode.stats.%s' % expr.split('(')[1].split(',')[0].strip("'\"")
      read = {x for ks, names in r['reads'] for x in names if x in DATA}
      if not read: continue
      def bad(rule, key, text, at): rep.add(rule, '%s|%s' % (who, key), '%s%s' % (expr, text), at)
      # a weighted form asked for without weights that apply, and the like, is what its own class says
      for k, labs in sorted(r['labs'].items()):
        ns = {l for l in labs if l[:2] == 'n:'}; ms = {l for l in labs if l[:2] == 'm:'}
        out = ' ' + k if k else ''
        if aware:
          if r['filter']: undecided['%s: places picked by a mask' % expr] = 1; continue
          if ns: bad('not skipped', k, ': a missing value of the input makes the result%s missing' % out, who)
          if not ns and any(l[:2] == 'q:' for l in labs): bad('spoiled', k, ': one missing value drops everything added up with it from the result%s' % out, who)
          if fam in COUNTED and (len(ms) > 0 or k not in ('p',)):
            lack = [v for v in sorted(read) if not any(l.endswith(':' + v) for l in ms)] if fam not in ('difference',) else [] if ms else ['the input']
            if lack and not ns: bad('not counted', k, ': what the result%s is divided by does not depend on where %s is missing' % (out, ' and '.join(lack)), who)
        else:
          if any(l[:2] == 'k:' for l in labs): bad('skipped in part', k, ': missing values are left out of something the result%s is made from' % out, who)
          for v in sorted(read):
            lack = [x for x in '01' if 'n:%s:%s' % (x, v) not in ns]
            if lack and not (r['filter'] and len(lack) == 2) and ('c:0:' + v in labs or 'c:1:' + v in labs): bad('skipped', '%s|%s' % (k, '+'.join(lack)), ': a missing value of %s does not show in the result%s' % (v, out), who)
      if aware and fam in JOINT and len(read) > 1:
        for w in r['writes']:
          of = {v for v in read if any(l.endswith(':' + v) for l in w['value'])}
          if w['own'] and not w['had'] and len(of) == 1: bad('not joint', w['func'], ': %s is added up where %s may be missing' % (of.pop(), ' and '.join(sorted(read - {v for v in read if any(l.endswith(':' + v) for l in w['value'])}))), w['where'])
      if aware and fam in COUNTED:
        for x in r['divs']:
          for v in sorted(read):
            if {'c:0:' + v, 'c:1:' + v} <= x['top'] and not x['const'] and not any(l[:2] == 'm:' for l in x['by']):
              bad('divisor', x['func'], ': a total that leaves missing values out is divided by a number that counts them', x['where'])
  rep.floor('reductions_followed', n, 90)
  rep.coverage['divisions_examined'] = divs
  rep.obligations = n

# ---------------------------------------------------------------- native partial sums
def native(rep, repo, undecided):
  F = cast.File(repo, 'pygeode/tools.c')
  seen = 0
  for f in sorted(F.funcs):
    if not f.startswith('partial_') or 'sum' not in f: continue
    try: outs = Sum(F, f)
    except Unclear as e: undecided['%s: %s' % (f, e)] = 1; continue
    if not outs.sides: undecided['%s: nothing added' % f] = 1; continue
    seen += 1
    nan = 'nan' in f
    def bad(key, text): rep.add('native', '%s|%s' % (f, key), '%s %s' % (f, text), 'pygeode/tools.c')
    for what, hit in (('sum', 1), ('count', 2)):
      for missing in (False, True):
        done = outs.sides[missing][hit]
        want = not (nan and missing)
        if done is None: undecided['%s: %s' % (f, what)] = 1
        elif done != want: bad('%s|%s' % (what, missing), '%s %s value in its %s' % ('leaves out' if want else 'includes', 'a missing' if missing else 'an ordinary', what))
  rep.coverage['native_sums'] = seen

class Unclear(Exception): pass
class Leave(Exception): pass

class Sum:
  """Whether a native sum adds to its total and to its count, with a missing value at hand and with an ordinary one."""
  def __init__(self, F, f):
    self.sides = {}
    ps = F.params(F.funcs[f])
    if len(ps) < 8: raise Unclear('other parameters')
    self.params = {p.id: i for i, p in enumerate(ps)}
    body = F.body(F.funcs[f])
    parts = sorted({x.name for x in body.find('MemberExpr') if x.name})
    for missing, ways in ((False, [()]), (True, [(x,) for x in parts] + [tuple(parts)] if parts else [('',)])):
      got = []
      for w in ways:
        self.missing = set(w); self.ismissing = missing; self.env = dict(); self.out = {1: [], 2: []}
        try: self.stmt(body)
        except Leave: pass
        got.append({k: (True if True in v else None if None in v else False) for k, v in self.out.items()})
      self.sides[missing] = {k: got[0][k] if all(g[k] == got[0][k] for g in got) else 'nan' in f if all(g[k] is not None for g in got) else None for k in (1, 2)}
    if not any(v for s in self.sides.values() for v in s.values()): self.sides = {}
  def root(self, e):
    """Which parameter (4 in, 5 out, 6 count, 7 bins) memory reached through an expression belongs to."""
    e = e.strip()
    if e.kind == 'DeclRefExpr': return self.env.get(e.refid, self.params.get(e.refid))
    if e.kind == 'ArraySubscriptExpr': return self.root(e.kids[0])
    if e.kind == 'MemberExpr': return self.root(e.kids[0])
    if e.kind == 'UnaryOperator': return self.root(e.kids[0])
    if e.kind in ('BinaryOperator', 'CompoundAssignOperator') and e.op in ('+', '-', '+=', '-=', '='):
      r = self.root(e.kids[0])
      return r if r in (4, 5, 6) else self.root(e.kids[1]) if e.op in ('+', '=') else r
    return None
  def isdata(self, e):
    e = e.strip()
    if e.kind not in ('ArraySubscriptExpr', 'MemberExpr', 'DeclRefExpr', 'UnaryOperator'): return None
    if self.root(e) != 4: return None
    m = [x.name for x in e.find('MemberExpr')]
    return (m[0] in self.missing if m else self.ismissing) if self.ismissing else False
  def text(self, e):
    e = e.strip()
    return (e.kind, e.op, e.refid if e.kind == 'DeclRefExpr' else e.name, e.value) + tuple(self.text(k) for k in e.kids)
  def truth(self, e):
    e = e.strip()
    if e.kind == 'UnaryOperator' and e.op == '!':
      v = self.truth(e.kids[0]); return None if v is None else not v
    if e.kind == 'BinaryOperator' and e.op in ('&&', '||'):
      a, b = self.truth(e.kids[0]), self.truth(e.kids[1])
      k = e.op == '||'
      return k if k in (a, b) else None if None in (a, b) else not k
    if e.kind == 'CallExpr':
      n = cast.callee(e) or ''
      a = cast.args(e)
      if ('isnan' in n or 'isfinite' in n) and a:
        v = self.isdata(a[-1])
        return None if v is None else v if 'isnan' in n else not v
      return None
    if e.kind == 'BinaryOperator' and e.op in ('!=', '=='):
      if self.text(e.kids[0]) == self.text(e.kids[1]):
        v = self.isdata(e.kids[0])
        return None if v is None else v if e.op == '!=' else not v
      for a, b in ((0, 1), (1, 0)):
        z = e.kids[a].strip()
        if z.kind == 'IntegerLiteral' and z.value == '0':
          v = self.truth(e.kids[b]); return None if v is None else v == (e.op == '!=')
    if e.kind == 'IntegerLiteral': return e.value != '0'
    if e.kind == 'DeclRefExpr' and ('t', e.refid) in self.env: return self.env['t', e.refid]
    return None
  def adds(self, e):
    """Whether adding this changes a total."""
    e = e.strip()
    if e.kind in ('IntegerLiteral', 'FloatingLiteral'): return float(e.value) != 0
    if e.kind == 'ConditionalOperator':
      t = self.truth(e.kids[0])
      return None if t is None else self.adds(e.kids[1 if t else 2])
    t = self.truth(e)
    if t is not None: return t
    if e.kind == 'BinaryOperator' and e.op == '*':
      a = [self.truth(k) for k in e.kids]
      if False in a and not self.ismissing: return False
    return True
  def stmt(self, s):
    k = s.kind
    if k == 'CompoundStmt':
      for c in s.kids: self.stmt(c)
    elif k == 'DeclStmt':
      for d in s.kids:
        if d.kind == 'VarDecl' and d.kids:
          r = self.root(d.kids[-1])
          if r is not None: self.env[d.id] = r
          t = self.truth(d.kids[-1])
          if t is not None: self.env['t', d.id] = t
    elif k == 'ForStmt':
      for c in s.kids[:-1]:
        if c.kind in ('DeclStmt',): self.stmt(c)
      self.loop(s.kids[-1])
    elif k == 'WhileStmt': self.loop(s.kids[-1])
    elif k == 'DoStmt': self.loop(s.kids[0])
    elif k == 'IfStmt':
      t = self.truth(s.kids[0])
      if t is None:
        if any(self.root(x) in (5, 6) for c in s.kids[1:] for x in c.find('BinaryOperator', 'CompoundAssignOperator')) or any(c.find('ContinueStmt', 'ReturnStmt', 'BreakStmt', 'GotoStmt')): raise Unclear('a test that is not decided')
        for c in s.kids[1:]: self.stmt(c)
      elif t: self.stmt(s.kids[1])
      elif len(s.kids) > 2: self.stmt(s.kids[2])
    elif k in ('ContinueStmt', 'BreakStmt', 'ReturnStmt'): raise Leave()
    elif k in ('GotoStmt', 'SwitchStmt', 'CaseStmt', 'LabelStmt'): raise Unclear('jumps')
    else: self.expr(s)
  def loop(self, b):
    try: self.stmt(b)
    except Leave: pass
  def expr(self, e):
    e = e.strip()
    if e.kind in ('BinaryOperator', 'CompoundAssignOperator') and e.op in ('=', '+=', '-='):
      l = e.kids[0].strip(); r = self.root(l)
      if l.kind == 'DeclRefExpr':
        if e.op == '=':
          r = self.root(e.kids[1]); t = self.truth(e.kids[1])
          if r is not None: self.env[l.refid] = r
          if t is not None: self.env['t', l.refid] = t
      elif r in (5, 6): self.out[r - 4].append(self.adds(e.kids[1]))
    elif e.kind == 'UnaryOperator' and e.op == '++':
      l = e.kids[0].strip()
      if l.kind != 'DeclRefExpr' and self.root(l) in (5, 6): self.out[self.root(l) - 4].append(True)
    elif e.kind == 'BinaryOperator' and e.op == ',':
      for c in e.kids: self.expr(c)
    elif e.kind == 'CallExpr' and any(self.root(a) in (5, 6) for a in cast.args(e)): raise Unclear('passed on')
