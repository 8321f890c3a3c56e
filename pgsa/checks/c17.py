"""C17: derived axes keep their class and companion data.

Every axis class is constructed by a client program with a name, units, attributes, plotting attributes, auxiliary arrays
and attributes, and derived from by selection, sorting, renaming, concatenation and replacement of values.  In the axis
that comes out, the class must be the same, every piece of metadata must be that of the original, and every auxiliary
array must come from the array of the same name through the same selection as the values."""
from .. import ops, probe, runner as R
from . import c26

SRC = ''.join(x.replace('name=n)', "name=n, atts={'c': 'attribute'}, plotatts={'p': 'plot'})").replace('name=n,', "name=n, atts={'c': 'attribute'}, plotatts={'p': 'plot'},") for x in c26.SHAPES.values()) + '''
def dress(ax, u):
  ax.units = u
  return ax
def d_slice(ax, sel): return ax.slice[sel]
def d_range(ax, sel): return ax.slice[sel:]
def d_call(ax, sel): return ax(n=sel)
def d_call_index(ax, sel): return ax(i_n=sel)
def d_call_list(ax, sel): return ax(l_n=sel)
def d_sorted(ax, sel): return ax.sorted(reverse=sel)
def d_rename(ax, sel): return ax.rename('m')
def d_values(ax, sel): return ax.withnewvalues(sel)
def d_concat(ax, sel):
  from pygeode.axis import concat
  return concat([ax, ax.slice[sel]])
def d_concat_class(ax, sel): return ax.__class__.concat([ax, ax])
def d_concat_two(ax, other):
  from pygeode.axis import concat
  return concat([ax, other])
def d_concat_three(ax, other): return ax.__class__.concat([ax, other, ax.slice[1:]])
def d_modify(ax, sel):
  from pygeode.timeutils import modify
  return modify(ax, resolution='month')
def d_var_sorted(ax, sel):
  from pygeode.var import Var
  return Var((ax,), values=sel).sorted(0).axes[0]
def d_var_slice(ax, sel):
  from pygeode.var import Var
  return Var((ax,), values=ax.values).slice[sel].axes[0]
def d_var_rename(ax, sel):
  from pygeode.var import Var
  return Var((ax,), values=ax.values).rename_axes(n='m').axes[0]
'''
DERIVE = {'d_slice': 'selection', 'd_range': 'selection', 'd_call': 'selection by value', 'd_call_index': 'selection by index', 'd_call_list': 'selection by list',
          'd_sorted': 'sorting', 'd_rename': 'renaming', 'd_values': 'replacing the values', 'd_concat': 'concatenation', 'd_concat_class': 'concatenation', 'd_concat_two': 'concatenation with another axis', 'd_concat_three': 'concatenation with other axes', 'd_modify': 'restriction to coarser dates',
          'd_var_sorted': 'sorting a variable', 'd_var_slice': 'selecting from a variable', 'd_var_rename': "renaming a variable's axis"}
SELECTS = {'d_slice', 'd_range', 'd_call_index', 'd_call_list', 'd_call', 'd_var_slice', 'd_sorted', 'd_var_sorted'}
EMPTY = frozenset()

def run(rep):
  eng = R.engine()
  p = probe.Probe(eng, SRC, opaque={})
  items = []
  for c in ops.subclasses(eng, 'pygeode.axis.Axis'):
    q = c.info['qual']
    if q.startswith(('pygeode.formats', 'pygeode.plot')): continue
    sh = c26.shape_of(eng, c)
    items.append((c, sh))
    if sh == 'plain': items.append((c, 'weighted'))
  T = eng.find_class_any('pygeode.timeaxis.Time')
  def S(n): return eng.sym(n, 'arr')
  def source(labs): return {l for l in labs if l in ('v', 'a', 'v2', 'a2')}
  def go(i):
    c, sh = items[i]; q = c.info['qual']; out = []; n = [0, 0, 0]
    ax, st0, how = p.call('make_' + sh, [eng.av(c), S('v'), S('a'), eng.mk_const('x'), eng.mk_const('n')])
    objs = frozenset(o for o in ax.objs if o.kind == 'inst' and o.info['cls'] is c) if ax is not None else EMPTY
    if len(objs) != 1: return n, out
    n[0] = 1
    istime = eng.issub(c, T)
    ax = ax.__class__(objs)
    if not istime:
      r, st0, how = p.call('dress', [ax, eng.sym('units', 'str')], st=st0)
    me = next(iter(objs))
    def known(o, st, attr):
      """{key: value} of a dictionary attribute, with whether it is complete."""
      v = eng.getf(st, o, attr)
      if v is None:
        d = eng.classattr(c, attr, st)
        v = d
      if v is None: return None, False
      keys = {}; complete = True
      for d in v.objs:
        if d.kind != 'dict': complete = False; continue
        f = eng.fields(st, d)
        if f.get('open') or f.get('elem') is not None or f.get('maybe'): complete = False
        for k, x in f.items():
          if isinstance(k, tuple) and k[0] == 'k': keys[k[1]] = x if k[1] not in keys else eng_join(keys[k[1]], x)
      if len(v.objs) > 1: complete = False
      return keys, complete
    from ..engine import join as eng_join
    base = {a: known(me, st0, a)[0] for a in ('atts', 'plotatts', 'auxatts', 'auxarrays')}
    # a second axis of the same kind, whose arrays are others
    ax2, st2, how = p.call('make_' + sh, [eng.av(c), S('v2'), S('a2'), eng.mk_const('x'), eng.mk_const('n')], st=st0, salt=1)
    other = [o for o in (ax2.objs if ax2 is not None else ()) if o.kind == 'inst' and o.info['cls'] is c]
    two = len(other) == 1 and other[0] is not me
    if two:
      if not istime: r, st2, how = p.call('dress', [ax2, eng.sym('units', 'str')], st=st2)
      base2 = known(other[0], st2, 'auxarrays')[0]
    def note(order, data):
      # the order in which pieces are put together, by the axis each comes from
      for o in data['args'][0].objs if data['args'] else ():
        q = eng.seq(o, data['st'])
        if q is None or len(q) < 2: continue
        which = [frozenset('first' if l in ('v', 'a') else 'second' for l in source(eng.labs(x, data['st']))) for x in q]
        if all(len(w) == 1 for w in which): order[tuple(next(iter(w)) for w in which)] = 1
    for d, what in DERIVE.items():
      if d == 'd_modify' and (sh != 'time'): continue
      if d == 'd_var_rename' and c.info['name'] == 'NonCoordinateAxis': pass
      sel = AVbool(eng) if d in ('d_sorted',) else eng.sym('sel', 'arr') if d not in ('d_call', 'd_call_index') else eng.sym('sel', 'num')
      pair = d in ('d_concat_two', 'd_concat_three')
      if pair and not two: continue
      if pair: sel = ax2
      order = {}
      def listen(e, kind, node, data):
        if kind == 'extcall' and data.get('name', '').split('.')[-1] in ('concatenate', 'hstack', 'append', 'r_'): note(order, data)
      eng.sort_reverses = pair
      r, st, how = p.call(d, [ax, sel], st=st2 if pair else st0, salt=2, listeners=[listen] if pair else None)
      eng.sort_reverses = False
      if r is None: continue
      if len(order) > 1: out.append(('order', '%s|%s' % (q, d[2:]), '%s of a %s: pieces are put together in different orders (%s)' % (what, q, ' and '.join(str(list(x)) for x in sorted(order)))))
      res = [o for o in r.objs if o.kind == 'inst' and o is not me and any(k.info['qual'] == 'pygeode.axis.Axis' for k in eng.mro(o.info['cls']))]
      for o in res:
        n[1] += 1
        def add(rule, key, text): out.append((rule, '%s|%s|%s' % (q, d[2:], key), '%s of a %s: %s' % (what, q, text)))
        if o.info['cls'] is not c: add('class', o.info['cls'].info['qual'], 'the result is a %s' % o.info['cls'].info['qual']); continue
        nm = eng.getf(st, o, 'name'); want = 'm' if d in ('d_rename', 'd_var_rename') else 'n'
        if d != 'd_modify' and (nm is None or definite(nm) and consts(nm) != {want}): add('name', 'name', 'its name is %s instead of the %s' % (sorted(map(repr, consts(nm))) if nm is not None else 'the default of the class', 'new one' if want == 'm' else "original's"))
        un = eng.getf(st, o, 'units')
        if un is None: un = eng.classattr(c, 'units', st)
        if istime: lost = un is not None and definite(un) and 'days' not in consts(un)
        else: lost = un is None or 'units' not in eng.labs(un, st) and not any(x.kind == 'sym' for x in un.objs)
        if lost: add('units', 'units', "its units are not the original's")
        for a, txt in (('atts', 'attributes'), ('plotatts', 'plotting attributes'), ('auxatts', 'auxiliary attributes')):
          if d == 'd_modify' and a != 'auxatts': continue
          got, complete = known(o, st, a)
          if got is None or not complete: continue
          for k, v in (base[a] or {}).items():
            n[2] += 1
            if k not in got: add(a, '%s' % k, 'its %s have lost %r' % (txt, k))
            elif definite(v) and definite(got[k]) and consts(v) != consts(got[k]): add(a, '%s' % k, 'its %s have %r changed from %s to %s' % (txt, k, sorted(map(repr, consts(v))), sorted(map(repr, consts(got[k])))))
        if d == 'd_values': continue
        got, complete = known(o, st, 'auxarrays')
        if got is None or not complete: continue
        vals = eng.getf(st, o, 'values')
        for k, v in (base['auxarrays'] or {}).items():
          if d == 'd_modify' and k not in ('year', 'month'): continue
          n[2] += 1
          if k not in got: add('auxarrays', k, 'the auxiliary array %r is lost' % k); continue
          l0 = source(eng.labs(v, st0)); l1 = eng.labs(got[k], st)
          if pair: l0 = l0 | source(eng.labs(base2[k], st2)) if k in (base2 or {}) else l0
          if l0 - l1: add('auxarrays', k, 'the auxiliary array %r does not come from that of the original' % k)
          elif d in SELECTS and d not in ('d_sorted', 'd_var_sorted') and 'sel' not in l1: add('auxarrays', k, 'the auxiliary array %r is not selected in step with the values' % k)
          elif d in ('d_sorted', 'd_var_sorted') and not any('sort' in l for l in l1): add('auxarrays', k, 'the auxiliary array %r is not reordered in step with the values' % k)
    return n, out
  tot = [0, 0, 0]
  for i, (n, out) in R.parallel(go, list(range(len(items)))):
    for j in range(3): tot[j] += n[j]
    for x in out: rep.add(*x)
  rep.floor('axis_classes', tot[0], 20)
  rep.floor('derived_axes', tot[1], 300)
  rep.floor('metadata_entries_compared', tot[2], 500)
  rep.explanation = 'Every axis class derived from in %d ways; metadata and origin of every auxiliary array compared.' % len(DERIVE)

def AVbool(eng):
  from ..engine import AV
  return AV(frozenset((eng.const(True), eng.const(False), eng.const(None))), frozenset(('sel',)))
def definite(v): return bool(v.objs) and all(o.kind == 'const' for o in v.objs)
def consts(v): return {o.info['value'] for o in v.objs if o.kind == 'const'}
