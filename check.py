#!/usr/bin/env python3
"""python3-vt check.py C02 [...]: decide properties from /repo's current source."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgsa.report import Report, Broken, finish

def main(ids):
  rc = 0
  for pid in ids:
    m = importlib.import_module('pgsa.checks.' + pid.lower())
    rep = Report(pid)
    try: m.run(rep)
    except Broken as e:
      print('ANALYSIS-BROKEN %s' % e)
      return 2
    rc = max(rc, finish(rep))
  return rc

if __name__ == '__main__':
  if os.environ.get('PYTHONHASHSEED') != '0':      # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
  sys.exit(main(sys.argv[1:]))
