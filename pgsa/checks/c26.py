"""C26: axes are equal only if everything about them agrees.

Every axis class is constructed twice by a small client program so that the two axes agree in everything but one facet
(class, length, values, an auxiliary array or its presence, an attribute or its presence, the name where the name is the
identity), and the comparison operators are interpreted abstractly with numpy's comparisons answering accordingly.  No
comparison may then come out True (False for !=), whichever of the two is asked."""
from .. import ops, probe, runner as R

SHAPES = {
 'plain':   'def make_plain(cls, v, a, x, n): return cls(v, name=n, aux=a, extra=x)\ndef make_plain_noaux(cls, v, a, x, n): return cls(v, name=n, extra=x)\ndef make_plain_noatt(cls, v, a, x, n): return cls(v, name=n, aux=a)\n',
 'weighted': 'def make_weighted(cls, v, a, x, n): return cls(v, name=n, weights=a, rtol=1e-5, units=x)\ndef make_weighted_noatt(cls, v, a, x, n): return cls(v, name=n, weights=a, rtol=1e-5)\n',
 'hybrid':  'def make_hybrid(cls, v, a, x, n): return cls(v, A=a, B=v, name=n, extra=x)\ndef make_hybrid_noatt(cls, v, a, x, n): return cls(v, A=a, B=v, name=n)\n',
 'time':    'def make_time(cls, v, a, x, n): return cls(year=v, month=a, units="days", startdate=dict(year=1, month=1), name=n)\ndef make_time_noaux(cls, v, a, x, n): return cls(year=v, units="days", startdate=dict(year=1, month=1), name=n)\n',
 'day':     'def make_day(cls, v, a, x, n): return cls(day=v, hour=a, units="days", startdate=dict(day=1), name=n)\ndef make_day_noaux(cls, v, a, x, n): return cls(day=v, units="days", startdate=dict(day=1), name=n)\n',
 'seasonal': 'def make_seasonal(cls, v, a, x, n): return cls(year=v, season=a, units="days", startdate=dict(year=1, month=1, day=1), name=n)\ndef make_seasonal_noaux(cls, v, a, x, n): return cls(season=a, units="days", startdate=dict(year=1, month=1, day=1), name=n)\n',
 'noncoord': 'def make_noncoord(cls, v, a, x, n): return cls(aux=a, other=v, extra=x, name=n)\ndef make_noncoord_noaux(cls, v, a, x, n): return cls(other=v, extra=x, name=n)\ndef make_noncoord_noatt(cls, v, a, x, n): return cls(aux=a, other=v, name=n)\n',
}
SRC = ''.join(SHAPES.values()) + '''
def eq(a, b): return a == b
def ne(a, b): return a != b
def alleq(a, b): return a.alleq(b)
def equiv(a, b):
  from pygeode.axis import is_equivalent
  return is_equivalent(a, b)
def equiv_class(a, b):
  from pygeode.axis import is_equivalent
  return is_equivalent(a, b, check_class=True)
def equiv_name(a, b):
  from pygeode.axis import is_equivalent
  return is_equivalent(a, b, check_name=True)
'''
ASK = ('eq', 'ne', 'alleq', 'equiv', 'equiv_class', 'equiv_name')
TEXT = dict(values='their values differ', length='their lengths differ', aux='an auxiliary array differs', auxkeys='only one has an auxiliary array', att='an attribute differs', attkeys='only one has an attribute', name='their names differ')
T = 'pygeode.timeaxis.Time'

def shape_of(eng, c):
  q = {k.info['qual'] for k in eng.mro(c)}
  if T in q:
    al = eng.constfields(c) if hasattr(eng, 'constfields') else None
    nm = [k.info['name'] for k in eng.mro(c)]
    if any('Season' in n for n in nm): return 'seasonal'
    if 'Yearless' in nm or 'Lag' in nm: return 'day'
    return 'time'
  if any(x.endswith('.NonCoordinateAxis') for x in q): return 'noncoord'
  if any(x.endswith('.Hybrid') for x in q): return 'hybrid'
  return 'plain'

def run(rep):
  eng = R.engine()
  p = probe.Probe(eng, SRC, opaque={})
  classes = [c for c in ops.subclasses(eng, 'pygeode.axis.Axis') if not c.info['qual'].startswith(('pygeode.formats', 'pygeode.plot'))]
  axis = eng.find_class_any('pygeode.axis.Axis'); named = eng.find_class_any('pygeode.axis.NamedAxis'); time = eng.find_class_any(T)
  items = []
  for c in classes:
    items.append((c, shape_of(eng, c)))
    if items[-1][1] == 'plain': items.append((c, 'weighted'))
  def S(n): return eng.sym(n, 'arr')
  def go(i):
    c, sh = items[i]; q = c.info['qual']; out = []; n = [0, 0, 0]
    def build(var, v, a, x, nm, st, cls=None, salt=0):
      r, st, how = p.call('make_' + sh + var, [eng.av(cls or c), S(v), S(a), eng.mk_const(x), eng.mk_const(nm)], st=st, salt=salt)
      if r is None or not any(o.kind == 'inst' for o in r.objs): return None, st
      return r.__class__(frozenset(o for o in r.objs if o.kind == 'inst'), r.labs), st
    def compare(facet, one, two, st):
      """{question: verdict} with the facet answered as different."""
      def oracle(e, a, b, s, how):
        la, lb = e.labs(a, s), e.labs(b, s)
        if facet != 'length' and how == '==' and 'op:builtins.len' in la and 'op:builtins.len' in lb and all(o.kind in ('scalar', 'const') for o in a.objs | b.objs): return True
        for k in ('v', 'a'):
          if (k + '1' in la) != (k + '2' in la) and (k + '1' in lb) != (k + '2' in lb) and (k + '1' in la) != (k + '1' in lb): return False
        if facet == 'length':
          t = str(e.term(a, s)) + str(e.term(b, s))
          if how in ('array_equal', 'array_equiv') or 'op:builtins.len' in la | lb or 'shape' in t or 'size' in t: return False
          if how == '==' and all(o.kind in ('list', 'tuple') for o in a.objs | b.objs): return False
          if not ({'v', 'a'} & (la | lb)) : return None
          return True
        if (la | lb) & {'v', 'a', 'v1', 'a1', 'v2', 'a2'}: return True
        return None
      eng.oracle = oracle
      res = {}
      try:
        for f in ASK:
          for nm, x, y in (('', one, two), ('~', two, one)):
            r, s2, how = p.call(f, [x, y], st=st)
            if how == 'budget' or r is None: res[f + nm] = None; continue
            vals = {o.info['value'] for o in r.objs if o.kind == 'const'} if all(o.kind == 'const' for o in r.objs) else {o.info['value'] for o in r.objs if o.kind == 'const'} | {'?'}
            res[f + nm] = vals
            n[1] += 1
      finally: eng.oracle = None
      return res
    base, st0 = build('', 'v', 'a', 'x', 'n', None)
    if base is None: return n, out
    n[0] = 1
    istime = eng.issub(c, time); nonc = sh == 'noncoord'
    def scenario(facet, kw1, var1, kw2, var2, cls2=None):
      d = dict(v='v', a='a', x='x', nm='n')
      k1 = dict(d, **kw1); k2 = dict(d, **kw2)
      one, st = build(var1, k1['v'], k1['a'], k1['x'], k1['nm'], None)
      if one is None: return
      two, st = build(var2, k2['v'], k2['a'], k2['x'], k2['nm'], st, cls2, salt=1)
      if two is None: return
      if one.objs & two.objs:
        n[2] += 1; return
      return compare(facet, one, two, st)
    has = lambda var: 'make_%s%s' % (sh, var) in SRC
    todo = [('same', {}, '', {}, '', None), ('values', dict(v='v1'), '', dict(v='v2'), '', None), ('aux', dict(a='a1'), '', dict(a='a2'), '', None), ('length', {}, '', {}, '', None)]
    if has('_noaux'): todo += [('auxkeys', {}, '', {}, '_noaux', None)]
    if has('_noatt'): todo += [('att', dict(x='p'), '', dict(x='q'), '', None), ('attkeys', {}, '', {}, '_noatt', None)]
    if c is axis or eng.issub(c, named): todo.append(('name', dict(nm='p'), '', dict(nm='q'), '', None))
    for d, s2 in items:
      if s2 != sh or sh == 'weighted': continue
      if d is c or eng.issub(c, d) or eng.issub(d, c): continue
      todo.append(('class', {}, '', {}, '', d))
    for facet, k1, v1, k2, v2, d in todo:
      res = scenario(facet, k1, v1, k2, v2, d)
      if not res: continue
      if facet == 'same':
        for a in ('eq', 'equiv'):
          if res.get(a) == {False} or res.get(a + '~') == {False}: out.append(('never-equal', '%s|%s' % (q, a), '%s: two axes that agree in everything are not equal' % q))
        if res.get('ne') == {True}: out.append(('never-equal', '%s|ne' % q, '%s: two axes that agree in everything are unequal' % q))
        continue
      for k, vals in sorted(res.items()):
        if vals is None: continue
        f = k.rstrip('~')
        if f == 'equiv_class' and facet in ('name',) : pass
        if f.startswith('equiv') and nonc or f.startswith('equiv') and istime and facet == 'length': continue
        if f.startswith('equiv') and facet == 'name' and f != 'equiv_name' and c is not axis: continue
        wrong = False if f == 'ne' else True
        if vals == {wrong}:
          what = TEXT.get(facet) or 'one is of the unrelated class %s' % (d.info['qual'] if d is not None else '?')
          how = {'eq': '==', 'ne': '!=', 'alleq': 'alleq', 'equiv': 'is_equivalent', 'equiv_class': 'is_equivalent with check_class', 'equiv_name': 'is_equivalent with check_name'}[f]
          out.append(('equal-despite-' + facet, '%s|%s%s' % (q, f, '|' + d.info['qual'] if d is not None else ''), '%s: %s takes two axes for equal though %s%s' % (q, how, what, ' (asked of the second one)' if k.endswith('~') else '')))
    # one class derived from the other: the answer must not depend on which is asked
    for d, s2 in items:
      if d is c or not eng.issub(d, c) or s2 != sh or sh == 'weighted': continue
      for facet, kw in (('same', {}), ('name', dict(nm='q'))):
        one, st = build('', 'v', 'a', 'x', 'n', None)
        if one is None: continue
        two, st = build('', 'v', 'a', 'x', kw.get('nm', 'n'), st, d, salt=1)
        if two is None or one.objs & two.objs: continue
        res = compare(facet, one, two, st)
        for f in ASK:
          a, b = res.get(f), res.get(f + '~')
          if a and b and a != b and '?' not in a | b and len(a) == len(b) == 1:
            out.append(('depends-on-order', '%s|%s|%s' % (q, d.info['qual'], f), 'comparing %s with %s gives %s, the other way round %s (%s)' % (q, d.info['qual'], a, b, f)))
          if f == 'equiv_class' and a == {True}: out.append(('equal-despite-class', '%s|%s|%s' % (q, d.info['qual'], f), 'is_equivalent with check_class takes a %s and a %s for equal' % (q, d.info['qual'])))
    return n, out
  nc = nq = nshared = 0
  for i, (n, out) in R.parallel(go, list(range(len(items)))):
    nc += n[0]; nq += n[1]; nshared += n[2]
    for x in out: rep.add(*x)
  rep.coverage['pairs_not_told_apart'] = nshared
  rep.floor('axis_classes_compared', nc, 15)
  rep.floor('comparisons_followed', nq, 1000)
  rep.explanation = 'Pairs of axes of every class differing in one facet, each comparison followed in both orders.'
