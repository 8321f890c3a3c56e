"""Names an attribute access may reach in the Python standard library, numpy and matplotlib (run once with /opt/venv/bin/python)."""
import builtins, importlib, inspect, json, sys, pkgutil
names = set(); mods = {}
def cls(c):
  for n in dir(c): names.add(n)
for o in vars(builtins).values():
  names.update(dir(o))
for m in 'os os.path sys re glob time datetime copy math struct ctypes ctypes.util pickle threading warnings itertools functools collections weakref types inspect json socket urllib urllib.request urllib.parse http.client http.server string io tempfile operator random cmath bisect decimal subprocess calendar hashlib logging argparse textwrap shutil traceback tarfile zipfile gzip contextlib numbers fractions'.split():
  try: M = importlib.import_module(m)
  except ImportError: continue
  names.update(dir(M))
  for o in list(vars(M).values()):
    if inspect.isclass(o): cls(o)
import numpy as np
for m in ('numpy numpy.ma numpy.fft numpy.linalg numpy.random numpy.lib.stride_tricks numpy.lib numpy.testing scipy scipy.stats scipy.interpolate scipy.special scipy.optimize scipy.signal scipy.linalg scipy.fftpack matplotlib matplotlib.pyplot matplotlib.cm matplotlib.colors matplotlib.axes matplotlib.figure matplotlib.axis matplotlib.ticker matplotlib.dates matplotlib.contour matplotlib.collections matplotlib.lines matplotlib.patches matplotlib.text matplotlib.transforms matplotlib.quiver matplotlib.colorbar matplotlib.gridspec matplotlib.spines matplotlib.legend matplotlib.backend_bases matplotlib.mathtext matplotlib.font_manager mpl_toolkits.axes_grid1 xarray pandas cartopy cartopy.crs netCDF4 dask dask.array mpl_toolkits.basemap').split():
  try: M = importlib.import_module(m)
  except Exception as e: print('no', m, file=sys.stderr); continue
  if m.split('.')[0] in ('numpy',): mods[m] = sorted(n for n in dir(M))
  names.update(dir(M))
  for o in list(vars(M).values()):
    if inspect.isclass(o): cls(o)
for d in (np.float64(1), np.dtype('f8'), np.zeros(3).flags, np.finfo(float), np.iinfo(int), sys.version_info, sys.float_info): names.update(dir(d))
mods['numpy'] = sorted(set(mods['numpy']) | {'abs', 'round', 'max', 'min', 'bool_', 'long', 'ulong'} if False else set(mods['numpy']))
json.dump(dict(names=sorted(names), numpy=mods), open('/verif/data/libnames.json', 'w'), indent=0)
