"""Catalogue of analysis roots: the package's public operations with symbolic arguments."""
import ast
from .engine import Engine, State, AV, Star, Stop, Budget, join, joinall

# What kind of thing a caller passes, by parameter name (confirmed by reading every use).
PARAMTYPES = {
  'var': 'Var', 'invar': 'Var', 'x': 'Var', 'X': 'Var', 'Y': 'Var', 'var1': 'Var', 'var2': 'Var', 'v1': 'Var', 'v': 'Var', 'dx': 'num',
  'vars': 'list:Var', 'varlist': 'list:Var', 'Xs': 'list:Var', 'invars': 'list:Var',
  'view': 'View', 'outview': 'View', 'dataset': 'Dataset', 'in_dataset': 'Dataset', 'datasets': 'list:Dataset', 'dset': 'Dataset',
  'axes': 'list:Axis', 'axis': 'any', 'inaxes': 'list:Axis', 'axis_lists': 'list:list:Axis', 'sets': 'list:list:Axis',
  'inaxis': 'any', 'outaxis': 'Axis', 'taxis': 'cls:pygeode.timeaxis.Time', 'intime': 'cls:pygeode.timeaxis.Time', 'ax': 'Axis', 'ax1': 'Axis', 'ax2': 'Axis',
  'dt': 'any', 'taxis1': 'cls:pygeode.timeaxis.Time', 'taxis2': 'cls:pygeode.timeaxis.Time', 'dt1': 'any', 'dt2': 'any', 'time': 'list:Axis', 'space': 'list:Axis',
  'values': 'arr', 'start': 'list:int', 'count': 'list:int', 'atts': 'dict', 'plotatts': 'dict', 'startdate': 'dict', 'dates': 'dict', 'vals': 'arr', 'data': 'arr',
  'weights': 'any', 'weight': 'any', 'weight1': 'any', 'weight2': 'any', 'cfmeta': 'bool', 'axisdict': 'dict', 'newaxes': 'list:Axis', 'dimtypes': 'dict', 'namemap': 'dict', 'varlist_f': 'list',
  'name': 'str', 'units': 'str', 'filename': 'str', 'newname': 'str', 'fmt': 'str', 'value': 'num', 'other': 'any', 'ensdict': 'dict:Var', 'files': 'list:str', 'value_override': 'dict',
  'n': 'int', 'order': 'num', 'fill': 'num', 'lags': 'list:int', 'kernel': 'any', 'func': 'any', 'pbar': 'cls:pygeode.progress.PBar', 'arr': 'arr', 'ind': 'arr', 'slices': 'tuple:slice', 'iaxis': 'any',
  'inx': 'Var', 'outx': 'Var', 'daxis': 'any', 'yaxis': 'any', 'saxis': 'any', 'indices': 'list:any', 'lower': 'num', 'upper': 'num', 'key': 'str', 's': 'str', 'domains': 'any', 'vardict': 'dict', 'kwargs': 'dict',
  'varnames': 'list:str', 'e': 'any', 'unlimited': 'str', 'pos': 'num', 'alist': 'list:any', 'date': 'dict', 'a': 'arr', 'b': 'arr', 'ievents': 'any', 'evlen': 'any', 'evoff': 'any', 'inner': 'any',
  'dtype': 'any', 'out': 'any', 'rtol': 'num', 'slice': 'any', 'A': 'arr', 'B': 'arr', 'order_': 'list', 'p': 'any', 'file_list': 'any', 'taxis_': 'any', 'vals_': 'arr',
  'yrlen': 'int', 'itime': 'any', 'unitstr': 'str', 'coef': 'Var', 'eof': 'any',
}
VARARGS = {'axes': 'any', 'vars': 'Var', 'args': 'any', 'inputs': 'Var', 'iaxes': 'any', 'newaxes': 'Axis', 'Xs': 'Var', 'X': 'Var'}

def symarg(eng, fname, p, default, has_default, types=None):
  """Abstract argument for a parameter."""
  t = (types or {}).get(p, PARAMTYPES.get(p, 'any'))
  s = eng.sym(p, t)
  if has_default and default is not None:
    objs = default.objs
    consts = [o.info['value'] for o in objs if o.kind == 'const']
    if consts and all(isinstance(c, bool) for c in consts) and p not in ('weights', 'weight'):
      return AV(frozenset((eng.const(True), eng.const(False))), frozenset((p,)), ('sym', p))
    if consts and all(c is None for c in consts): return AV(s.objs | objs, s.labs)
    if consts and all(isinstance(c, bool) for c in consts): return AV(s.objs | frozenset((eng.const(True), eng.const(False), eng.const(None))), s.labs)
    if consts and all(isinstance(c, str) for c in consts): return eng.sym(p, 'str')
    if consts and all(isinstance(c, (int, float)) for c in consts) and t == 'any': return eng.sym(p, 'num')
    if any(o.kind == 'dict' for o in objs): return eng.sym(p, 'dict')
    if any(o.kind == 'list' for o in objs): return eng.sym(p, t if t.startswith('list') else 'list')
  return s

def sym_bindings(eng, fo, st, types=None, selfav=None, skip=()):
  """Symbolic arguments (positional list, keyword dict) for a function object."""
  fn = fo.info['node']; a = fn.args
  defs = eng.fields(st, fo).get('defaults', ())
  kwdefs = eng.fields(st, fo).get('kwdefaults', ())
  pos = a.posonlyargs + a.args
  args = []; kw = {}
  nd = len(pos) - len(defs)
  for i, p in enumerate(pos):
    if i == 0 and selfav is not None: args.append(selfav); continue
    d = defs[i - nd] if i >= nd else None
    if p.arg in skip:
      break
    args.append(symarg(eng, fo.info['name'], p.arg, d, i >= nd, types))
  if selfav is not None and not pos and a.vararg:
    args.append(selfav)             # a forwarding wrapper: the further positional arguments are optional
  elif a.vararg:
    t = (types or {}).get('*' + a.vararg.arg, VARARGS.get(a.vararg.arg, 'any'))
    args.append(Star(eng.sym('*' + a.vararg.arg + '[*]', t)))
  for p, d in zip(a.kwonlyargs, kwdefs):
    kw[p.arg] = symarg(eng, fo.info['name'], p.arg, d, d is not None, types)
  if a.kwarg:
    kw['**'] = eng.sym('**' + a.kwarg.arg + '[*]', (types or {}).get('**' + a.kwarg.arg, 'any'))
  return args, kw

INTERNAL_METHODS = {'getview', 'getvalues'}

def public_functions(eng):
  """Module-level public functions of the library: (qualified name, func Obj, AV)."""
  out = []
  for mod in sorted(eng.prog.modules):
    if mod.startswith(('pygeode.options', 'pygeode.plugins', 'pygeode.plot', 'pygeode.utils', 'pygeode.timeticker', 'pygeode.tutorial', 'pygeode.ext_xarray')): continue
    mo = eng.intern.get(('module', mod))
    if mo is None: continue
    for name, v in eng.base.get(mo, {}).items():
      if not isinstance(name, str) or name.startswith('__') or not isinstance(v, AV): continue
      for o in v.objs:
        if o.kind == 'func' and o.info['mod'] == mod: out.append((mod + '.' + name, o))
        elif o.kind == 'func' and o.info['mod'] == 'pygeode.ufunc' and mod == 'pygeode.ufunc': out.append((mod + '.' + name, o))
  return out

def all_classes(eng):
  return sorted((o for o in eng.intern.values() if o.kind == 'class' and o.info.get('qual')), key=lambda o: o.info['qual'])
def subclasses(eng, base):
  b = eng.find_class_any(base)
  return [c for c in all_classes(eng) if b in eng.mro(c)]
def own_methods(eng, c):
  for name, v in sorted((k, x) for k, x in eng.base.get(c, {}).items() if isinstance(k, str) and isinstance(x, AV)):
    for o in v.objs:
      if o.kind == 'func': yield name, o, 'm'
      elif o.kind == 'clsm':
        for f in o.info['f'].objs:
          if f.kind == 'func': yield name, f, 'c'
      elif o.kind == 'static':
        for f in o.info['f'].objs:
          if f.kind == 'func': yield name, f, 's'
      elif o.kind == 'prop':
        for f in o.info['fget'].objs:
          if f.kind == 'func': yield name, f, 'm'

def run_func(eng, fo, st, types=None, selfav=None, skip=()):
  args, kw = sym_bindings(eng, fo, st, types, selfav, skip)
  return eng.root_call(eng.av(fo), args, kw, st, mod=fo.info['mod'])
