"""C06: reductions combine every part of their input from a neutral start.

Every reduction is followed over two marked parts of its input, divided along an axis it reduces and along one it keeps."""
from .. import chunks, runner as R

def run(rep):
  eng = R.engine()
  try: work(rep, eng)
  finally: eng.tm = None; eng.exactgen = False

DATA = ('temp', 'other')
def work(rep, eng):
  ops = chunks.operations()
  p = chunks.setup(eng, [o[0] for o in ops])
  items = [(i, d) for i, o in enumerate(ops) for d in ('time', 'pres', 'lat') if d in o[2] or d == ('lat' if 'time' in o[2] else 'time')]
  def go(it):
    i, d = it
    runs, how = chunks.follow(eng, p, i, d, ops[i][4])
    return [vars(r) for r in runs], how
  undecided = {}; n = 0; writes = 0; parts = 0
  for (i, d), (runs, how) in R.parallel(go, items):
    expr, fam, axes, aware, direct = ops[i]
    if how != 'done' or not runs: undecided['%s over %s: %s' % (expr, d, how)] = 1; continue
    for r in runs:
      if r['how'] != 'done' or r['lost']: undecided['%s over %s: %s' % (expr, d, r['how'])] = 1; continue
      n += 1; writes += len(r['writes'])
      who = r['cls'] if not direct else 'pygeode.stats.%s' % expr.split('(')[1].split(',')[0].strip("'\"")
      both = {x for ks, names in r['reads'] for x in names if x in DATA and '0' in ks} & {x for ks, names in r['reads'] for x in names if x in DATA and '1' in ks}
      parts += len(both)
      # weights and the like that lie along the divided axis
      r['along'] = both | {x for x in {x for ks, names in r['reads'] if '0' in ks for x in names} & {x for ks, names in r['reads'] if '1' in ks for x in names} if isinstance(x, str)}
      seen = {x: {k for ks, names in r['reads'] if x in names for k in ks} for x in DATA}
      def bad(rule, key, text, at): rep.add(rule, '%s|%s' % (who, key), '%s%s' % (expr, text), at)
      for v in DATA:
        if len(seen[v] & {'0', '1'}) == 1: bad('part not read', d, ': of the two parts its input is divided in along %s only %s is read' % (d, 'the first' if '0' in seen[v] else 'the last'), who)
      if d in axes: reduced(r, fam, aware, both, bad, who, d)
      else: kept(r, both, bad, who, d)
  rep.floor('reductions_followed', n, 100)
  rep.floor('combinations_examined', writes, 200)
  rep.obligations = n
  rep.coverage['divided_inputs'] = parts
  rep.coverage['undecided'] = sorted(undecided)[:40]
  rep.assumptions = ['a region read in parts gives the parts of what is read whole (C25, C27)', 'the native partial sums add what they are given (C07 examines them)']
  rep.explanation = 'Every reduction, climatology and statistic followed over two marked parts: both parts reach the result, none is overwritten, accumulators start from a value that changes nothing, divisors count every part.'

def one(labs, v): return {k for k in '01' if 'c:%s:%s' % (k, v) in labs}

def reduced(r, fam, aware, both, bad, who, d):
  for k, labs in sorted(r['labs'].items()):
    for v in sorted(both):
      miss = {'0', '1'} - one(labs, v)
      # an output that has nothing to do with this variable (its own count, say) need not carry it at all
      if miss and (len(miss) == 1 or len(both) == 1): bad('part lost', '%s|%s' % (k, '+'.join(sorted(miss))), ': %s of the parts its input is divided in along %s %s not reach the result%s' % (' and '.join({'0': 'the first', '1': 'the last'}[x] for x in sorted(miss)), d, 'does' if len(miss) == 1 else 'do', ' ' + k if k else ''), who)
    ps = {l for l in labs if l.startswith('p:')}
    if {'p:0', 'p:1'} <= ps and not r['weighted']: bad('mean of means', k, ': the averages of the parts along %s are combined without their sizes' % d, who)
  for w in r['writes']:
    for v in sorted(r['along']):
      if not w['whole'] and one(w['had'], v) == {'0'} and one(w['value'], v) == {'1'}:
        bad('overwritten', w['func'], ': divided along %s, what the first part gave is overwritten by the second' % d, w['where'])
    if w['own'] and not w['had']:
      if w['init'] == 'nothing': bad('start', w['func'], ': the parts are combined with an array that was never given values', w['where'])
      elif w['missing'] and w['init'] == 'nan': bad('start', w['func'], ': the parts are combined with missing values that are not left out', w['where'])
      elif w['init'] != '?' and w['init'] is not None and not neutral(fam, aware, w['init']): bad('start', w['func'], ': the parts are combined starting from %s' % w['init'], w['where'])
  for x in r['divs']:
    zs = {l for l in x['by'] if l[:2] == 'z:'}
    if len(zs) == 1 and not any(l[:2] == 'c:' for l in x['by']) and any({'c:0:' + v, 'c:1:' + v} <= x['top'] for v in both): bad('divisor', x['func'], ': a total over both parts along %s is divided by the size of one' % d, x['where'])
    for v in sorted(r['along']):
      if one(x['top'], v) == {'0', '1'} and len(one(x['by'], v)) == 1: bad('divisor', x['func'], ': a total over both parts along %s is divided by that of one' % d, x['where'])

def neutral(fam, aware, init):
  if init == 'nan': return aware
  if fam == 'min': return init == 'inf'
  if fam == 'max': return init == '-inf'
  return init == 0

def kept(r, both, bad, who, d):
  for w in r['writes']:
    for v in sorted(both):
      x = one(w['value'], v) - one(w['had'], v)
      if len(x) == 1 and w['key'] and not x & w['key'] and not w['whole']: bad('misplaced', w['func'], ': divided along %s, a part is stored where another one belongs' % d, w['where'])
  for k, labs in sorted(r['labs'].items()):
    for v in sorted(both):
      miss = {'0', '1'} - one(labs, v)
      if len(miss) == 1: bad('part lost', 'kept|%s|%s' % (k, '+'.join(sorted(miss))), ': one of the parts its input is divided in along %s does not reach the result%s' % (d, ' ' + k if k else ''), who)
