"""C10: what is written to describe axes, times, fill values and scaling is what is recognised on reading.

Every axis class, calendar, time unit and reference date goes through encode_cf and decode_cf by abstract
interpretation with exact names; the axis that comes out must be of the class, unit, date and arrays that went in."""
from .. import ops, probe, runner as R
from ..dtypes import Types
from ..engine import AV, where, _MISSING
from ..report import Broken
from . import c26

SRC = ''.join(c26.SHAPES.values()) + '''
class Cell: pass
import pygeode.formats.cfmeta
def make_lat(cls, v, a, x, n): return cls(v, name=n, weights=a, extra=x)
def make_stn(cls, v, a, x, n): return cls(lat=v, lon=a, height=v, name=n, extra=x)
def make_stn2(cls, v, a, x, n): return cls(lat=v, a=a, name=n, extra=x)
def make_stn3(cls, v, a, x, n): return cls(lon=v, first=a, second=v, name=n, extra=x)
def make_tw(cls, v, a, x, n, units, date): return cls(v, units=units, startdate=date, name=n, weights=a)
def make_t(cls, v, a, x, n, units, date): return cls(v, units=units, startdate=date, name=n)
def date_full(n): return dict(year=1979, month=2, day=3, hour=4, minute=5, second=6)
def date_short(n): return dict(year=1850, month=1, day=1)
def date_early(n): return dict(year=7, month=12, day=31, hour=23, minute=0, second=59)
def date_days(n): return dict(day=3, hour=2)
def pick(ds):
  for v in ds.vars:
    if v.name == 'data': return v
def back(a, x, d):
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  from pygeode.formats.cfmeta import encode_cf, decode_cf
  v = Var((a,), values=x, name='data', atts={'long': d})
  return pick(decode_cf(encode_cf(Dataset([v], atts={'own': d})))).axes[0]
def written(a, x, d):
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  from pygeode.formats.cfmeta import encode_cf
  v = Var((a,), values=x, name='data', atts={'long': d})
  return pick(encode_cf(Dataset([v], atts={'own': d}))).axes[0]
def decoded(v, atts):
  from pygeode.axis import NamedAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  from pygeode.formats.cfmeta import decode_cf
  a = NamedAxis(v, name='nm', atts=atts)
  return pick(decode_cf(Dataset([Var((a,), values=v, name='data')]))).axes[0]
def decoded_var(v, x, atts):
  from pygeode.axis import NamedAxis
  from pygeode.var import Var
  from pygeode.dataset import Dataset
  from pygeode.formats.cfmeta import decode_cf
  a = NamedAxis(v, name='nm')
  return pick(decode_cf(Dataset([Var((a,), values=x, name='data', atts=atts)])))
def names(n, m): return {n: m}
def names2(n, m, k, l): return {n: m, k: l}
def read(v): return v.get()
'''
A = 'pygeode.axis.'; T = 'pygeode.timeaxis.'
KNOWN = [A + x for x in ('Lat', 'Lon', 'Pres', 'Hybrid', 'Station', 'NonCoordinateAxis', 'XAxis', 'YAxis', 'ZAxis', 'TAxis', 'NamedAxis')] + [T + x for x in ('StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless')]
UNITS = ('days', 'hours', 'minutes', 'seconds')
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
DEFAULT = dict(year=0, month=1, day=1, hour=0, minute=0, second=0)
CALENDARS = {'standard': 'StandardTime', 'gregorian': 'StandardTime', 'proleptic_gregorian': 'StandardTime', 'noleap': 'ModelTime365', '365_day': 'ModelTime365',
             '360_day': 'ModelTime360', 'none': 'Yearless'}
STRANGE = ('julian', 'all_leap', '366_day', 'no', 'one', '')
# unit strings the convention allows, and what they say
STRINGS = {'days since 1979-02-03 04:05:06': ('days', (1979, 2, 3, 4, 5, 6)), 'hours since 1900-1-1': ('hours', (1900, 1, 1, 0, 0, 0)), 'day since 2000-01-01': ('days', (2000, 1, 1, 0, 0, 0)),
           'minutes since 1999-12-31 23:59': ('minutes', (1999, 12, 31, 23, 59, 0)), 'seconds since 1970-01-01T00:00:00': ('seconds', (1970, 1, 1, 0, 0, 0)),
           'Days since 2001-2-3 4:05:06.0': ('days', (2001, 2, 3, 4, 5, 6)), 'second since 1850-06-15 12:00:00': ('seconds', (1850, 6, 15, 12, 0, 0)),
           'hour since 2010-10-10 10:10:10': ('hours', (2010, 10, 10, 10, 10, 10)), 'days since 0850-01-01 00:00:00': ('days', (850, 1, 1, 0, 0, 0))}

def run(rep):
  eng = R.engine()
  tm = Types(); eng.tm = tm
  try: work(rep, eng, tm)
  finally: eng.tm = None

def work(rep, eng, tm):
  eng.modstate.pop('pygeode.formats.cfmeta', None)
  seen = []                    # (startdate, units) of the offsets computed from a calendar axis
  def offsets(eng, st, o, args, kw, node):
    """Offsets of an axis from its own or another date: an array known by its unit and date."""
    me = args[0] if args else None
    rest = list(args[1:])
    names = ('dates', 'startdate', 'units')
    got = {n: (kw.get(n) if n in kw else rest[i] if i < len(rest) else None) for i, n in enumerate(names)}
    d = got['dates']
    if d is not None and not (eng.constval(d, 0) is None and eng.isconst(d)): return None
    def own(x, attr):
      if x is None or (eng.constval(x, 0) is None and eng.isconst(x)): return eng.getattr(me, attr, st, node, quiet=True)
      return x
    u, s = own(got['units'], 'units'), own(got['startdate'], 'startdate')
    if u is None or s is None or not isinstance(eng.constval(u, None), str): return None
    seen.append((eng.constval(u, None), date_of(eng, s, st)))
    r = eng.mkarr(node, frozenset(('offsets:%d' % (len(seen) - 1),)), st, tag=('offsets', len(seen) - 1))
    return r
  ops_ = {}
  for c in ops.subclasses(eng, T + 'Time'):
    v = eng.getf(eng.new_state(), c, 'date_as_val')
    for f in v.objs if v is not None else ():
      if f.kind == 'func': ops_[f.info['qual']] = offsets
  op = dict(ops_)
  def itself(eng, st, o, args, kw, node):
    if len(args) == 2 and args[0].objs == args[1].objs and one(args[0]) is not None: return eng.mk_const(True)
    return None
  itself.quiet = True
  for q in ('Axis', 'NonCoordinateAxis', 'NamedAxis'): op[A + q + '.__eq__'] = itself
  op['pygeode.axis.Axis._readaxisconfig'] = lambda *a: eng.NONE
  p = probe.Probe(eng, SRC, opaque=op)
  tm.cell = next(iter(eng.getf(p.st, p.mo, 'Cell').objs))
  mo = eng.intern.get(('module', 'pygeode.formats.cfmeta'))
  if mo is None: raise Broken('cfmeta was not loaded')
  cust = eng.getf(p.st, mo, 'custom_axes')
  for o in cust.objs if cust is not None else ():
    if o.kind == 'dict': p.st.heap[o] = {}            # no add-on axes installed
  classes = {c.info['qual']: c for c in ops.subclasses(eng, A + 'Axis')}
  und = []; n = [0, 0]
  def arr(name, st, dt='float64'):
    v = eng.sym(name, 'arr'); tm.put(eng, v, dt, st); return v
  def bad(rule, key, text): rep.add(rule, key, text, 'pygeode/formats/cfmeta.py')
  def one(v): return next(iter(v.objs)) if v is not None and len(v.objs) == 1 and next(iter(v.objs)).kind == 'inst' else None
  def trip(c, shape, name='nm', salt=0):
    st = p.st.copy()
    a, st, how = p.call('make_' + shape, [eng.av(c), arr('v', st), arr('a', st), eng.mk_const('val'), eng.mk_const(name)], st=st, salt=salt)
    if a is None or one(a) is None: return None
    seen.clear()
    b, st, how = p.call('back', [a, arr('x', st), eng.mk_const('text')], st=st, salt=salt)
    n[0] += 1
    return one(a), b, st, how
  def inst_of(q, st): return eng.mk_const(q)
  # axis classes
  done = set()
  for q, c in sorted(classes.items()):
    if q.startswith(('pygeode.formats', 'pygeode.plot')): continue
    sh = c26.shape_of(eng, c)
    mro = [k.info['qual'] for k in eng.mro(c)]
    want = next((k for k in mro if k in KNOWN), A + 'NamedAxis')
    shapes = [sh] if sh in ('hybrid',) else ['plain_noaux', 'lat'] if sh == 'plain' else ['stn', 'stn2', 'stn3'] if sh == 'noncoord' else []
    for s, nm in [(s, nm) for s in shapes for nm in (('nm', 'station') if want.endswith('.Station') else ('nm',))]:
      r = trip(c, s, nm)
      if r is None: continue
      a, b, st, how = r
      station = want.endswith('.Station') and nm != 'station'
      if how == 'budget': und.append('%s (%s)' % (q, s)); continue
      if how == 'raises': bad('refused', q, 'a %s cannot be saved and read back' % c.info['name']); continue
      o = one(b)
      if o is None:
        k = {x.info['cls'].info['qual'] for x in b.objs if x.kind == 'inst'}
        if want not in k and k and all(x.kind == 'inst' for x in b.objs): bad('class', q, 'a %s comes back as %s' % (c.info['name'], ' or '.join(sorted(x.split('.')[-1] for x in k))))
        else: und.append('%s (%s)' % (q, s))
        continue
      n[1] += 1; done.add(q)
      if o.info['cls'].info['qual'] != want: bad('named' if station else 'class', q, 'a %s%s comes back as a %s' % (c.info['name'], ' not called "station"' if station else '', o.info['cls'].info['name']))
      va, vb = eng.getf(st, a, 'values'), eng.getf(st, o, 'values')
      if sh != 'noncoord' and vb is not None:
        if not ('v' in eng.labs(vb, st)): bad('values', q, 'the values of a %s do not come back' % c.info['name'])
      xa, xb = aux_of(eng, a, st), aux_of(eng, o, st)
      if xa is not None and xb is not None:
        for k in sorted(set(xa) - set(xb)): bad('auxiliary', '%s|%s' % (q, k), 'the %s array of a %s does not come back' % (k, c.info['name']))
        for k in sorted(set(xa) & set(xb)):
          la = {l for l in eng.labs(xa[k], st) if l in ('v', 'a')}; lb = {l for l in eng.labs(xb[k], st) if l in ('v', 'a')}
          if la and lb and la != lb and not (la & lb): bad('auxiliary', '%s|%s' % (q, k), 'the %s array of a %s comes back as another' % (k, c.info['name']))
        n[1] += 1
      ta = atts_of(eng, o, st)
      if sh != 'noncoord' and ta is not None:
        n[1] += 1
        if 'extra' in atts_of(eng, a, st, ()) and ta.get('extra', _MISSING) != 'val': bad('attribute', q, 'an attribute of a %s does not come back' % c.info['name'])
        for k in ('units', 'calendar', 'axis', 'positive', 'ancillary_variables'):
          if k in ta and k not in atts_of(eng, a, st, ()): bad('left', '%s|%s' % (q, k), 'a %s comes back with a %s attribute it did not have' % (c.info['name'], k))
      na = eng.getf(st, o, 'name')
      if na is not None and eng.constval(na, nm) != nm: bad('name', q, 'a %s comes back under another name' % c.info['name'])
  # calendars, units, dates
  def check_time(o, b, st, key, what, want, units, date, offs):
    q = {x.info['cls'].info['qual'] for x in b.objs if x.kind == 'inst'}
    if not all(x.kind == 'inst' for x in b.objs) or not q: und.append(what); return
    if want not in q: bad('class', key, '%s comes back as %s' % (what, ' or '.join(sorted(x.split('.')[-1] for x in q)))); return
    if len(q) > 1: und.append(what)
    n[1] += 1
    for x in b.objs:
      if x.info['cls'].info['qual'] != want: continue
      u = eng.getf(st, x, 'units'); d = eng.getf(st, x, 'startdate')
      u = eng.constval(u, None) if u is not None else None
      dd = date_of(eng, d, st) if d is not None else None
      if isinstance(u, str):
        n[1] += 1
        if u != units: bad('units', key, '%s comes back in %s' % (what, u))
      else: und.append(what + ': units')
      if dd is not None:
        n[1] += 1
        f = [k for k in FIELDS if k in date and dd.get(k, DEFAULT[k]) != date[k]]
        if f: bad('date', key, '%s comes back with another reference %s' % (what, f[0]))
      else: und.append(what + ': date')
      if offs is None: continue
      v = eng.getf(st, x, 'values')
      ls = {l for l in eng.labs(v, st) if l.startswith('offsets:')} if v is not None else set()
      if len(ls) == 1:
        k = seen[int(ls.pop().split(':')[1])]
        n[1] += 1
        if k[0] != u: bad('offsets', key, 'the values of %s are written in %s and read in %s' % (what, k[0], u))
        if k[1] is not None and dd is not None and any(k[1].get(f, DEFAULT[f]) != dd.get(f, DEFAULT[f]) for f in FIELDS if f != 'year' or 'year' in date): bad('offsets', key, 'the values of %s are written from another date than read' % what)
      elif not ls: und.append(what + ': values')
  for q in KNOWN:
    if not q.startswith(T): continue
    c = classes.get(q)
    if c is None: continue
    for unit in UNITS:
      for dn in (('date_days',) if q.endswith('Yearless') else ('date_full', 'date_short', 'date_early')):
        st = p.st.copy()
        d, st, how = p.call(dn, [eng.NONE], st=st)
        date = date_of(eng, d, st)
        a, st, how = p.call('make_t', [eng.av(c), arr('v', st), arr('a', st), eng.mk_const('val'), eng.mk_const('nm'), eng.mk_const(unit), d], st=st)
        what = '%s in %s since %s' % (c.info['name'], unit, '-'.join(str(date[k]) for k in FIELDS if k in date))
        key = '%s|%s' % (q, unit)
        if a is None or one(a) is None: und.append(what + ': not built'); continue
        seen.clear()
        b, st, how = p.call('back', [a, arr('x', st), eng.mk_const('text')], st=st)
        n[0] += 1
        if how == 'budget': und.append(what); continue
        if how == 'raises': bad('refused', key, '%s cannot be saved and read back' % what); continue
        check_time(one(a), b, st, key, what, q, unit, date, True)
    st = p.st.copy()
    d, st, how = p.call('date_full', [eng.NONE], st=st)
    a, st, how = p.call('make_tw', [eng.av(c), arr('v', st), arr('a', st), eng.mk_const('val'), eng.mk_const('nm'), eng.mk_const('days'), d], st=st)
    if a is None or one(a) is None: continue
    b, st, how = p.call('back', [a, arr('x', st), eng.mk_const('text')], st=st)
    o = one(b) if b is not None else None
    xa, xb = aux_of(eng, one(a), st), aux_of(eng, o, st) if o is not None else None
    n[0] += 1
    if xa is not None and xb is not None:
      n[1] += 1
      if 'weights' in xa and 'weights' not in xb: bad('auxiliary', q + '|weights', 'the weights array of a %s does not come back' % c.info['name'])
  # each of the names and units the writer gives an axis says which class it is
  for nm_ in ('Lat', 'Lon', 'Pres'):
    c = classes.get(A + nm_)
    if c is None: continue
    st = p.st.copy()
    a, st, how = p.call('make_plain_noaux', [eng.av(c), arr('v', st), arr('a', st), eng.mk_const('val'), eng.mk_const('nm')], st=st)
    if a is None or one(a) is None: continue
    w, st, how = p.call('written', [a, arr('x', st), eng.mk_const('text')], st=st)
    n[0] += 1
    ta = atts_of(eng, one(w), st) if w is not None and one(w) is not None else None
    if ta is None: und.append('what is written of a %s' % nm_); continue
    for k in ('standard_name', 'units'):
      if not isinstance(ta.get(k), str): continue
      st = p.st.copy()
      d, st, how = p.call('names', [eng.mk_const(k), eng.mk_const(ta[k])], st=st)
      b, st, how = p.call('decoded', [arr('v', st), d], st=st)
      n[0] += 1
      o = one(b) if b is not None else None
      if o is None: und.append('an axis of %s "%s"' % (k, ta[k])); continue
      n[1] += 1
      if not any(x.info['qual'] == A + nm_ for x in eng.mro(o.info['cls'])): bad('word', '%s|%s' % (nm_, k), 'a %s is written with the %s "%s", which the reader does not know as one' % (nm_, k.replace('_', ' '), ta[k]))
  # what the reader makes of descriptions written by others
  def read(atts):
    st = p.st.copy()
    d, st, how = p.call('names2', [eng.mk_const(x) for kv in atts.items() for x in kv], st=st)
    seen.clear()
    b, st, how = p.call('decoded', [arr('v', st), d], st=st)
    n[0] += 1
    return b, st, how
  for s, (unit, date) in STRINGS.items():
    b, st, how = read({'units': s, 'standard_name': 'time'})
    what = 'an axis in "%s"' % s
    if how == 'budget': und.append(what); continue
    if how == 'raises': bad('string', s, '%s cannot be read' % what); continue
    check_time(None, b, st, 'string|' + s, what, T + 'StandardTime', unit, dict(zip(FIELDS, date)), None)
  for unit in UNITS:
    u = '%s since 1979-02-03 04:05:06' % unit
    for atts in ({'units': u, 'standard_name': 'time'}, {'units': u, 'axis': 'T'}, {'units': u, 'long_name': 'forecast'}):
      b, st, how = read(atts)
      what = 'an axis in %s since a date, told by its %s' % (unit, {'standard_name': 'standard name', 'axis': 'axis letter', 'long_name': 'units alone'}[list(atts)[1]])
      if how == 'budget': und.append(what); continue
      if how == 'raises': bad('string', what, '%s cannot be read' % what); continue
      check_time(None, b, st, 'told|%s|%s' % (unit, list(atts)[1]), what, T + 'StandardTime', unit, dict(zip(FIELDS, (1979, 2, 3, 4, 5, 6))), None)
  for cal in tuple(CALENDARS) + STRANGE:
    b, st, how = read({'units': 'days since 0000-01-01' if cal == 'none' else 'days since 1999-01-01', 'calendar': cal})
    what = 'an axis of calendar "%s"' % cal
    if how == 'budget': und.append(what); continue
    if how == 'raises': bad('calendar', cal, '%s cannot be read' % what); continue
    q = {x.info['cls'].info['qual'] for x in b.objs if x.kind == 'inst'}
    if not q or not all(x.kind == 'inst' for x in b.objs): und.append(what); continue
    n[1] += 1
    if cal in CALENDARS and q != {T + CALENDARS[cal]}: bad('calendar', cal, '%s is read as %s' % (what, ' or '.join(sorted(x.split('.')[-1] for x in q))))
    if cal in STRANGE and cal and any(x in KNOWN and x.startswith(T) for x in q): bad('calendar', cal, '%s, which the package does not have, is read as %s' % (what, ' or '.join(sorted(x.split('.')[-1] for x in q))))
    if cal == '' and T + 'Yearless' in q: bad('calendar', cal, 'an axis with an empty calendar is read as Yearless')
  # fill values and scaling
  for att in ('FillValue', '_FillValue', 'missing_value', 'scale_factor', 'add_offset'):
    for val in (-999., 1e20, 0, 0., 5, -1, 0.01):
      if att == 'scale_factor' and not val: continue
      st = p.st.copy()
      d, st, how = p.call('names', [eng.mk_const(att), eng.mk_const(val)], st=st)
      b, st, how = p.call('decoded_var', [arr('v', st), arr('x', st), d], st=st)
      n[0] += 1
      what = 'a variable with %s = %s' % (att, val); key = att if val else att + '|zero'
      o = one(b) if b is not None else None
      if how != 'done' or o is None: und.append(what); continue
      ls = None
      lost = atts_of(eng, o, st)
      n[1] += 1
      if lost is not None and att in lost: bad('scaling', key + '|kept', '%s is read with the attribute still on it' % what)
      if not any(eng.constval(v, None) == val and type(eng.constval(v, None)) is type(val) for k, v in eng.fields(st, o).items() if isinstance(k, str) and isinstance(v, AV)):
        bad('scaling', key, '%s is read as if it had none' % what)
  # how they are applied: the fill value is looked for in the stored numbers, and scaling comes before the offset
  marks = []
  def on(eng, kind, node, data):
    if kind == 'arith' or kind == 'aug':
      marks.append((kind, data.get('op'), eng.labs(data['left'], data['st']) if data.get('left') is not None else frozenset(), eng.labs(data['right'], data['st']) if data.get('right') is not None else frozenset()))
    if kind == 'compare': marks.append(('compare', None) + tuple(eng.labs(v, data['st']) for v in data['values'][:2]) if 'st' in data else ('compare', None) + tuple(v.labs for v in data['values'][:2]))
  st = p.st.copy()
  d, st, how = p.call('names2', [eng.mk_const('scale_factor'), eng.sym('SCALE', 'num'), eng.mk_const('add_offset'), eng.sym('OFFSET', 'num')], st=st)
  b, st, how = p.call('decoded_var', [arr('v', st), arr('x', st), d], st=st)
  if how == 'done' and one(b) is not None:
    r, st2, how = p.call('read', [b], st=st, listeners=[on])
    if how == 'done':
      ls = eng.labs(r, st2); n[1] += 1
      for k, w in (('SCALE', 'scale factor'), ('OFFSET', 'offset')):
        if k not in ls: bad('scaling', 'apply|' + k, 'the %s of a variable is not applied to its values' % w)
      for kind, o_, l, r_ in marks:
        if kind in ('arith', 'aug') and 'SCALE' in r_ and 'OFFSET' in l and 'OFFSET' not in r_ and str(o_) in ('Mult', 'Div'): bad('scaling', 'apply|order', 'the offset is added before the values are scaled')
    else: und.append('applying scale and offset')
  st = p.st.copy()
  d, st, how = p.call('names2', [eng.mk_const('scale_factor'), eng.sym('SCALE', 'num'), eng.mk_const('_FillValue'), eng.sym('FILL', 'num')], st=st)
  b, st, how = p.call('decoded_var', [arr('v', st), arr('x', st), d], st=st)
  if how == 'done' and one(b) is not None:
    marks.clear()
    r, st2, how = p.call('read', [b], st=st, listeners=[on])
    if how == 'done':
      n[1] += 1
      if 'FILL' not in eng.labs(r, st2): bad('scaling', 'apply|FILL', 'the fill value of a variable is not looked for in its values')
      cm = [(l, r_) for kind, o_, l, r_ in marks if kind == 'compare' and 'x' in l | r_ and 'FILL' in l | r_]
      if cm and all('SCALE' in l | r_ for l, r_ in cm): bad('scaling', 'apply|fill', 'the fill value is looked for among values that were already scaled')
  rep.floor('round_trips', n[0], 80)
  rep.floor('facts_decided', n[1], 150)
  rep.coverage['axis_classes'] = len(done)
  rep.coverage['undecided'] = und[:30]
  rep.coverage['undecided_count'] = len(und)
  rep.assumptions = ['no add-on axis classes are installed', 'the calendar arithmetic itself is exact (decided under other properties)']
  rep.explanation = 'Each axis class, calendar, unit and reference date is encoded and decoded by abstract interpretation with exact names; what comes out must agree with what went in.'

def date_of(eng, v, st):
  """The fields of a reference date, when they are all exact."""
  if v is None or len(v.objs) != 1: return None
  o = next(iter(v.objs))
  if o.kind != 'dict': return None
  f = eng.fields(st, o)
  if f.get('open') or f.get('weak') or f.get('maybe'): return None
  out = {}
  for k, x in f.items():
    if isinstance(k, tuple):
      c = eng.constval(x, _MISSING)
      if c is _MISSING: return None
      out[k[1]] = c
  return out
def aux_of(eng, o, st):
  v = eng.getf(st, o, 'auxarrays')
  if v is None or len(v.objs) != 1: return None
  f = eng.fields(st, next(iter(v.objs)))
  if f.get('open') or f.get('maybe') or f.get('weak'): return None
  return {k[1]: x for k, x in f.items() if isinstance(k, tuple)}
def atts_of(eng, o, st, default=None):
  v = eng.getf(st, o, 'atts')
  if v is None or len(v.objs) != 1: return default
  f = eng.fields(st, next(iter(v.objs)))
  if f.get('open') or f.get('maybe') or f.get('weak'): return default
  return {k[1]: eng.constval(x, None) for k, x in f.items() if isinstance(k, tuple)}
