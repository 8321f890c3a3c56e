"""The C sources, through clang's own parser: a light tree of the functions each file defines."""
import glob, json, os, subprocess, sys
from .report import Broken

class N:
  __slots__ = ('kind', 'name', 'type', 'value', 'op', 'line', 'ref', 'refkind', 'kids', 'id', 'parent', 'refid', 'cast', 'file', 'prefix')
  def __init__(self, d, line, parent):
    self.kind = d.get('kind', ''); self.name = d.get('name'); self.type = (d.get('type') or {}).get('desugaredQualType') or (d.get('type') or {}).get('qualType')
    self.value = d.get('value'); self.op = d.get('opcode'); self.line = line; self.id = d.get('id'); self.parent = parent
    r = d.get('referencedDecl') or d.get('referencedMemberDecl')
    self.ref = r.get('name') if isinstance(r, dict) else None
    self.refkind = r.get('kind') if isinstance(r, dict) else None
    self.refid = r.get('id') if isinstance(r, dict) else d.get('targetLabelDeclId') or d.get('declId')
    self.cast = d.get('castKind'); self.prefix = not d.get('isPostfix', False)
    self.kids = []; self.file = None
  def walk(self):
    yield self
    for k in self.kids: yield from k.walk()
  def find(self, *kinds): return (n for n in self.walk() if n.kind in kinds)
  def strip(self):
    """Without parentheses and casts."""
    n = self
    while n.kind in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr', 'FullExpr') and n.kids: n = n.kids[-1]
    return n
  def __repr__(self): return '%s(%s)@%s' % (self.kind, self.name or self.ref or self.op or self.value or '', self.line)

def includes():
  out = []
  for p in sorted(glob.glob('/opt/venv/lib/python3*/site-packages/numpy/core/include')) + sorted(glob.glob('/usr/include/python3.*')): out.append('-I' + p)
  return out

class File:
  def __init__(self, repo, rel):
    self.rel = rel; self.path = os.path.join(repo, rel)
    p = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w'] + includes() + [self.path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: d = json.loads(p.stdout)
    except ValueError: raise Broken('clang produced no syntax tree for %s: %s' % (rel, p.stderr.decode()[-300:]))
    self.errors = [l for l in p.stderr.decode().splitlines() if 'error:' in l]
    if self.errors: raise Broken('%s does not parse: %s' % (rel, self.errors[0]))
    self.decls = []; self.funcs = {}; self.cur = [None, 0]
    for t in d['inner']:
      if self.mine(t):
        n = self.build(t, None)
        self.decls.append(n)
        if n.kind == 'FunctionDecl' and any(k.kind == 'CompoundStmt' for k in n.kids): self.funcs[n.name] = n
    with open(self.path, encoding='utf-8', errors='replace') as f: self.text = f.read().split('\n')
  def loc(self, d):
    """(file, line) of a location object, which clang writes as differences from the one before."""
    if not d: return self.cur
    for part in ('spellingLoc', 'expansionLoc'):
      if part in d:
        if part == 'spellingLoc': self.loc(d[part])
        else: return self.loc(d[part])
    if 'file' in d: self.cur[0] = d['file']
    if 'line' in d: self.cur[1] = d['line']
    return self.cur
  def mine(self, t):
    l = t.get('loc') or {}
    self.loc(l)
    f = self.cur[0]
    r = f is not None and os.path.abspath(f) == os.path.abspath(self.path)
    if not r: self.skip(t)
    return r
  def skip(self, t):
    """Keep the location state right across a declaration that is not kept."""
    stack = [t]
    def go(x):
      rg = x.get('range') or {}
      self.loc(rg.get('begin')); self.loc(rg.get('end'))
      for c in x.get('inner') or (): self.loc(c.get('loc') or {}); go(c)
    sys.setrecursionlimit(20000)
    go(t)
  def build(self, t, parent):
    if t.get('loc'): self.loc(t['loc'])
    line = self.cur[1]
    rg = t.get('range') or {}
    self.loc(rg.get('begin'))
    n = N(t, line if t.get('loc') else self.cur[1], parent)
    self.loc(rg.get('end'))
    for c in t.get('inner') or ():
      if c: n.kids.append(self.build(c, n))
      else:
        e = N({'kind': 'Empty'}, n.line, n); n.kids.append(e)
    return n
  def body(self, f): return next(k for k in f.kids if k.kind == 'CompoundStmt')
  def params(self, f): return [k for k in f.kids if k.kind == 'ParmVarDecl']

def callee(n):
  """Name of the function a call names, or None."""
  f = n.kids[0].strip()
  return f.ref if f.kind == 'DeclRefExpr' else None
def args(n): return n.kids[1:]

def files(repo): return sorted(os.path.relpath(p, repo) for p in glob.glob(os.path.join(repo, 'pygeode', '**', '*.c'), recursive=True))
