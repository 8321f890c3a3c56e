"""Small client programs, interpreted abstractly against the package: the analysis of "what happens when this is called"."""
import ast, textwrap
from . import runner as R
from .engine import AV, Budget

class Mod:
  def __init__(self, name, src):
    self.name, self.path, self.rel, self.src, self.digest = name, '<probe>', '<probe>', src, ''
    self.tree = ast.parse(src)
    for p in ast.walk(self.tree):
      for ch in ast.iter_child_nodes(p): ch._parent = p; ch._mod = self
    self.tree._mod = self; self.tree._parent = None

class Probe:
  """The functions of one source text, callable with abstract values."""
  def __init__(self, eng, src, name='pgsa_probe', opaque=None):
    self.eng = eng; self.name = name
    m = Mod(name, textwrap.dedent(src))
    eng.prog.modules[name] = m
    eng.modstate.pop(name, None)
    self.st = eng.new_state()
    eng.opaque = eng.cutsets[1] if opaque is None else opaque
    self.opaque = eng.opaque
    b, eng.budget = eng.budget, 10**9
    ls, eng.listeners = eng.listeners, []
    try: self.mo = eng.run_module(name, self.st)
    finally: eng.budget = b; eng.listeners = ls; eng.prog.modules.pop(name, None)
  def call(self, fname, args=(), kw=None, listeners=None, st=None, salt=0):
    """(result or None, state, 'done' | 'raises' | 'budget')"""
    eng = self.eng
    st = (st or self.st).copy()
    f = eng.getf(st, self.mo, fname)
    eng.opaque = self.opaque
    eng.budget = eng.steps + R.BUDGET
    eng.salt = salt
    if listeners is not None: eng.listeners = listeners
    try:
      r = eng.root_call(f, list(args), kw or {}, st)
      return r, st, 'done' if r is not None else 'raises'
    except (Budget, RecursionError): return None, st, 'budget'
    finally:
      eng.salt = 0
      if listeners is not None: eng.listeners = []
