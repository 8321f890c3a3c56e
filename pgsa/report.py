"""Findings, known findings, evidence and the exit protocol shared by all checks."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')

class Finding:
  """key: stable identity (rule + construct, no line numbers); text: the diagnosable report."""
  def __init__(self, rule, key, text, where=''):
    self.rule, self.key, self.text, self.where = rule, key, text, where
  def ident(self): return '%s|%s' % (self.rule, self.key)

class Broken(Exception):
  """The analysis lost its anchors: neither pass nor violation."""

class Report:
  def __init__(self, prop):
    self.prop = prop; self.t0 = time.time()
    self.findings = {}; self.coverage = {}; self.assumptions = []; self.samples = []
    self.obligations = 0; self.explanation = ''
  def add(self, rule, key, text, where=''):
    f = Finding(rule, key, text, where)
    self.findings.setdefault(f.ident(), f)
  def floor(self, what, n, minimum):
    """The rule must have met at least `minimum` instances of `what`."""
    self.coverage[what] = n
    if n < minimum and all(i in load_known(self.prop) for i in self.findings):
      raise Broken('%s: %d instances of "%s" analysed, expected at least %d' % (self.prop, n, what, minimum))

def load_known(prop):
  if not os.path.exists(KNOWN): return {}
  with open(KNOWN) as f: d = json.load(f)
  return {k['id']: k for k in d.get('findings', []) if k['property'] == prop}

def finish(rep):
  known = load_known(rep.prop)
  new = [f for i, f in rep.findings.items() if i not in known]
  old = [f for i, f in rep.findings.items() if i in known]
  cov = dict(rep.coverage)
  cov['explanation'] = rep.explanation
  if rep.obligations:
    cov['obligations'] = rep.obligations
    cov['discharged'] = rep.obligations - len(rep.findings)
  if rep.samples: cov['samples'] = rep.samples[:12]
  cov['known_findings'] = len(old)
  ev = dict(property=rep.prop, tier=os.environ.get('VERIF_TIER', 'quick'),
            seed=int(os.environ.get('VERIF_SEED', '1')), level='other', coverage=cov,
            assumptions=rep.assumptions, wall_s=round(time.time() - rep.t0, 3), violations=len(new))
  d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, rep.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
  for f in old:
    print('KNOWN-FINDING: property=%s %s' % (rep.prop, known[f.ident()]['what']))
  if new:
    rp = os.path.join(d, rep.prop + '.violations.txt')
    with open(rp, 'w') as fh:
      for f in new: fh.write('[%s] %s\n  id: %s\n  at: %s\n\n' % (f.rule, f.text, f.ident(), f.where))
    for f in new[:25]: print('  [%s] %s (%s)\n     id: %s' % (f.rule, f.text, f.where, f.ident()))
    if len(new) > 25: print('  ... and %d more' % (len(new) - 25))
    print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
    return 1
  print('%s: held (%s)' % (rep.prop, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
  return 0
