From db5ce603de90f1190a24ddd024150764fae6dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 01/52] fix: replace_axes and seasonal axes no longer modify
 the caller's list and arrays

---
 pygeode/timeaxis.py      | 4 ++--
 pygeode/varoperations.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9b88766..84e676b 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -883,10 +883,10 @@ def makeSeasonalAxis(Base):
 
       year = dates.get('year', zeros)
       season = dates.get('season', ones)
-      year += (season - 1) // self.nseasons
+      year = year + (season - 1) // self.nseasons
       season = (season - 1) % self.nseasons
 
-      year += self.cdates['dyear'][season]
+      year = year + self.cdates['dyear'][season]
       month = self.cdates['month'][season]
       day = self.cdates['day'][season]
 
diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 64832b3..b856706 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -281,6 +281,7 @@ class Replace_axes (Var):
       newaxes = list(var.axes)
     else:
       assert len(newaxes) == var.naxes, "wrong number of axes provided"
+      newaxes = list(newaxes)
 
     for a,newa in axisdict.items():
       if not var.hasaxis(a) and ignore_mismatch: continue
-- 
2.43.0


From b5f1de5b46a7798ea6f871a2e6f8a9da7c799ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 02/52] fix: left and right derivatives no longer overwrite the
 indices of the view they are given

---
 pygeode/deriv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 3ef8cc8..6ea382e 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -50,7 +50,8 @@ class DerivativeVar (Var):
     Nd = self.shape[daxis]
 
     # Get integer indices along the differentiation axis
-    ind = view.integer_indices[daxis]
+    # (a copy, since these are adjusted at the boundaries below)
+    ind = view.integer_indices[daxis].copy()
 
     # Want to do the finite difference with values to the left & right
     if self.df == 'centre':
-- 
2.43.0


From 025728f9fbbfaeb695f94259efe03e248e71f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 03/52] fix: building an axis no longer writes into the
 plotting defaults of its class

---
 pygeode/axis.py | 3 +++
 pygeode/var.py  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1c331c2..fde6f73 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -108,6 +108,8 @@ class Axis(Var):
     values = np.asarray(values)
 
     # Read configuration details
+    # (into a dictionary of this axis' own, so the class defaults are unaffected)
+    self.plotatts = self.plotatts.copy()
     self.__class__._readaxisconfig(self)
 
     # Note: Call init before hasattr (or don't use hasattr at all in here)
@@ -1213,6 +1215,7 @@ class Freq(Axis):
   def __init__ (self, values, inv_units=None, *args, **kwargs):
     if inv_units is not None:
       self.units = '/'+inv_units
+      self.plotatts = self.plotatts.copy()
       self.plotatts['plottitle'] = 'Frequency (per %s)'%inv_units
     kwargs = kwargs.copy()
     kwargs['inv_units'] = inv_units
diff --git a/pygeode/var.py b/pygeode/var.py
index 5ff1104..eb3e208 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -159,7 +159,7 @@ class Var(object):
     self.atts = self.__class__.atts.copy()
     if atts is not None:
       self.atts.update(atts)
-    self.plotatts = self.__class__.plotatts.copy()
+    self.plotatts = self.plotatts.copy()
     if plotatts is not None:
       self.plotatts.update(plotatts)
     # Note: the default empty dict {} used to be set as a static thing right
-- 
2.43.0


From 0baff61bc067e9cf1a1c0337af411a6c7a233809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 04/52] fix: arctand2 accepts its two arguments

---
 pygeode/ufunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index 4c0f99d..b84042e 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -200,7 +200,7 @@ def chain (*f):
   assert len(f) > 0
   if len(f) == 1: return f[0]
   def make_chain (f1,f2):
-    def f3(x): return f1(f2(x))
+    def f3(*x): return f1(f2(*x))
     return f3
   return make_chain (f[0],chain(*f[1:]))
 
-- 
2.43.0


From cd4cdda18ab06116fe70fd4740e72576a7755425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 05/52] fix: map passes its keyword arguments to the function

---
 pygeode/ufunc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index b84042e..5d2c0c6 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -140,11 +140,18 @@ def map (var, func, *args, **kwargs):
   array([260., 260., 260., 260., 260., 260., 260., 270.])
   '''
 
+  # Keyword arguments are meant for func, not for the variable
+  if kwargs:
+    @functools.wraps(func)
+    def op_(*a): return func(*a, **kwargs)
+  else:
+    op_ = func
+
   class MapVar(UfuncVar):
-    op = staticmethod(func)
+    op = staticmethod(op_)
     symbol = None
 
-  return MapVar(var, *args, **kwargs)
+  return MapVar(var, *args)
 # }}}
 
 # Take a function that operates on numpy arrays, create a
-- 
2.43.0


From 48f5f5f356732391334d45f31ece5457e0f60651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 06/52] fix: unsupported calendars and averages raise
 NotImplementedError

---
 pygeode/climat.py    | 4 ++--
 pygeode/composite.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index adda199..6d9e010 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -129,7 +129,7 @@ class Seasonal(TimeMap):
     try:
       SeasonalAxis = SeasonalTAxes[intime.__class__]
     except:
-      raise NotImplemented('Seasonal Time axis not implemented for this calendar')
+      raise NotImplementedError('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
     outax = SeasonalAxis(values = intime.values, \
@@ -153,7 +153,7 @@ class Seasonal(TimeMap):
     try:
       SeasonalAxis = SeasonalTAxes[intime.__class__]
     except:
-      raise NotImplemented('Seasonal Time axis not implemented for this calendar')
+      raise NotImplementedError('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
     return SeasonalAxis(values = intime.values, \
diff --git a/pygeode/composite.py b/pygeode/composite.py
index 8afc777..db42ba3 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -365,11 +365,11 @@ def time_ave(var, type, itime = -1):
   elif type == '5d':
     ilen = 20
   elif type == 'm':
-    raise NotImplemented('Monthly averaging not yet implemented')
+    raise NotImplementedError('Monthly averaging not yet implemented')
   elif type == 'y':
     ilen = 1460
   else:
-    raise NotImplemented('Unrecognized type')
+    raise NotImplementedError('Unrecognized type')
 
   vary = composite(var, itime, list(range(0, tlen, ilen)), ilen)
   varave = vary.mean(itime + 1)
-- 
2.43.0


From efd8ba6be30bac5fde61a60d19267dcebba360a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 07/52] fix: the warning about an unknown SVD matrix type can
 be formatted

---
 pygeode/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index c8e0a38..5be4c78 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -64,7 +64,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   if matrix in ('cov', 'covariance'): matrix = 'cov'
   elif matrix in ('cor', 'corr', 'correlation'): matrix = 'cor'
   else:
-    warn ("invalid matrix type '%'.  Defaulting to covariance."%matrix, stacklevel=2)
+    warn ("invalid matrix type '%s'.  Defaulting to covariance."%matrix, stacklevel=2)
     matrix = 'cov'
 
   MAX_ITER = 1000
-- 
2.43.0


From 323acf8e97a10b464fda0ad073cf985bba248d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 08/52] fix: the error for an unrecognized time string names
 the string

---
 pygeode/timeaxis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 84e676b..e0d265d 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -643,7 +643,7 @@ class CalendarTime(Time):
       if res is not None: break
 
     if res is None:
-      raise ValueError('String "%s" not recognized as a time')
+      raise ValueError('String "%s" not recognized as a time' % s)
 
     d = {}
     for k, v in res.groupdict().items():
-- 
2.43.0


From c733c01255c3b30cc92942d58b8fb170439172c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 09/52] fix: index axes can be renamed

---
 pygeode/axis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index fde6f73..4b96d01 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1225,8 +1225,9 @@ class Freq(Axis):
 # Indexing arrays (represent discrete items, such as EOF number, ensemble number, etc.)
 class Index(Axis):
 # {{{
-  def __init__ (self, n, *args, **kwargs):
-    values = n if hasattr(n,'__len__') else list(range(n))
+  def __init__ (self, values, *args, **kwargs):
+    # An integer stands for the indices up to it
+    if not hasattr(values,'__len__'): values = list(range(values))
     Axis.__init__(self, values, *args, **kwargs)
 # }}}
 
-- 
2.43.0


From 1e6fe6853f3256638a6071179cbdcd6a85149b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 10/52] fix: two-sided log normalisation no longer uses the
 removed numpy.float

---
 pygeode/plot/cnt_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index 8bd3af9..ee2391d 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -25,10 +25,10 @@ class LogNorm2Sided(Normalize):
 
     if np.iterable(value):
       vtype = 'array'
-      val = ma.asarray(value).astype(np.float)
+      val = ma.asarray(value).astype(float)
     else:
       vtype = 'scalar'
-      val = ma.array([value]).astype(np.float)
+      val = ma.array([value]).astype(float)
 
     self.autoscale_None(val)
     vmin, vmax = self.vmin, self.vmax
-- 
2.43.0


From d616625b7fc1aee8ad4f1726189c2c01eac38009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 11/52] fix: only a missing seasonal calendar is reported as
 not implemented

---
 pygeode/climat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 6d9e010..562edd4 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -128,7 +128,7 @@ class Seasonal(TimeMap):
     from pygeode.timeutils import _uniquify
     try:
       SeasonalAxis = SeasonalTAxes[intime.__class__]
-    except:
+    except KeyError:
       raise NotImplementedError('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
@@ -152,7 +152,7 @@ class Seasonal(TimeMap):
     from pygeode.timeaxis import SeasonalTAxes
     try:
       SeasonalAxis = SeasonalTAxes[intime.__class__]
-    except:
+    except KeyError:
       raise NotImplementedError('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
-- 
2.43.0


From c9ce9793422dea6cb6b6d6991961668b7be8577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 12/52] fix: only a missing netcdf library is ignored on import

---
 pygeode/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/__init__.py b/pygeode/__init__.py
index 04f7fbd..9f3eede 100644
--- a/pygeode/__init__.py
+++ b/pygeode/__init__.py
@@ -133,7 +133,7 @@ from pygeode.dataset import asdataset
 # File I/O
 try:
   from pygeode.formats import netcdf
-except Exception:
+except (ImportError, OSError, AssertionError, AttributeError):
   pass  # old netcdf format unavailable.
 
 from pygeode.formats import *
-- 
2.43.0


From 37b596a7b8126dd6ba7130a293e3c9d82b3e150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 13/52] fix: only malformed colormap settings are reported as
 such

---
 pygeode/plot/cm.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pygeode/plot/cm.py b/pygeode/plot/cm.py
index 5b08e9a..0485d9d 100644
--- a/pygeode/plot/cm.py
+++ b/pygeode/plot/cm.py
@@ -300,16 +300,12 @@ def read_config():
   # Read in divergent colormaps
   divstr = pyg._config.get('Plotting', 'cmaps_div')
   cmaps_div = parse_cmaps(divstr)
-  try:
-    pass
-  except:
-    warn('Parsing of default divergent colormaps in config files failed. See pyg._configfiles for list of configuration files in current use.')
 
   # Read in sequential colormaps
   seqstr = pyg._config.get('Plotting', 'cmaps_seq')
   try:
     cmaps_seq = parse_cmaps(seqstr)
-  except:
+  except (ValueError, SyntaxError, NameError):
     warn('Parsing of default sequential colormaps in config files failed. See pyg._configfiles for list of configuration files in current use.')
 # }}}
 
-- 
2.43.0


From 3b123a1568d136fc9fe9b2d750406f160f4f8385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 14/52] fix: composite reports an invalid selection instead of
 calling the axis unrecognized

---
 pygeode/composite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index db42ba3..1c2dc68 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -187,10 +187,10 @@ def composite (var, **kwargs):
 
   iaxis = -1
   for i, ax in enumerate(var.axes):
-    try:
-      sl = ax.get_slice(kwargs.copy())
-    except Exception as e:
-      continue
+    kw = kwargs.copy()
+    sl = ax.get_slice(kw, ignore_mismatch=True)
+    # Does the selection apply to this axis?
+    if len(kw) > 0: continue
     iaxis = i
     ievents = expand(sl, len(ax))
 
-- 
2.43.0


From 5a17609bf639dccf1170142d4c1cefb4a4b701fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 15/52] fix: axes are unequal exactly when they are not equal,
 and a dummy axis equals itself

---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 4b96d01..efd2e9d 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -207,7 +207,7 @@ class Axis(Var):
   #TODO: fix inconsistency between Axis and Var, for == and !=
   #      Vars produce a boolean mask under those operations, Axes return scalar True/False
   # I.e., "lat == 30" and "(lat*1) == 30" give very different results!
-  def __ne__ (self, other): return not is_equivalent(self, other)
+  def __ne__ (self, other): return not self == other
   def __eq__ (self, other): return is_equivalent(self, other)
 
   def alleq (self, *others):
@@ -763,7 +763,7 @@ class NamedAxis (Axis):
 
   def __eq__ (self, other):
   # {{{
-    if type(other) is not NamedAxis: return False
+    if not isinstance(other, NamedAxis): return False
 
     # Check the names
     if self.name != other.name: return False
-- 
2.43.0


From 73e06edb08ffc27076dc39d08b50892dc9db738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 16/52] fix: non-coordinate axes with different attributes are
 not equal

---
 pygeode/axis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index efd2e9d..58fd946 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1258,6 +1258,7 @@ class NonCoordinateAxis(Axis):
 # {{{
     # For simplicity, expect them to be the same type of axis.
     if type(self) != type(other): return False
+    if self.auxatts != other.auxatts: return False
     if set(self.auxarrays.keys()) != set(other.auxarrays.keys()): return False
     for k in list(self.auxarrays.keys()):
       if list(self.auxarrays[k]) != list(other.auxarrays[k]): return False
-- 
2.43.0


From 6e98795ee2e2873b584f45baec241d6356f643e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 17/52] fix: from pygeode import * works

---
 pygeode/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/__init__.py b/pygeode/__init__.py
index 9f3eede..9d28a76 100644
--- a/pygeode/__init__.py
+++ b/pygeode/__init__.py
@@ -119,7 +119,7 @@ __all__.append('ensemble')
 
 from pygeode.stats import *
 from pygeode.stats import __all__ as stats_all
-__all__.append(stats_all)
+__all__.extend(stats_all)
 
 from pygeode.spectral import *
 from pygeode.spectral import __all__ as spectral_all
-- 
2.43.0


From f32595ffc26058c5699024a48ecd830790bcde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 18/52] fix: alleq and is_equivalent with check_class do not
 depend on which axis is asked

---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 58fd946..1da6163 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -214,7 +214,7 @@ class Axis(Var):
   # {{{
     ''' alleq(self, *others) - returns True if self matches with all axes in others.'''
     for other in others:
-      if not self.__eq__(other): return False
+      if not self == other: return False
     return True
   # }}}
 
@@ -695,7 +695,7 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
 #   print 'not an axis?'
     return False
   if check_class:
-    if not isinstance(ax2, ax1.__class__):
+    if ax2.__class__ is not ax1.__class__:
   #   print 'mismatched classes'
       return False
   else:
-- 
2.43.0


From addb5aa737b5125c9567f7c8f787f0af7c3ece6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 19/52] fix: derived axes keep their units and plotting
 attributes

---
 pygeode/axis.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1da6163..9af31b1 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -376,6 +376,8 @@ class Axis(Var):
       aux[key] = np.array(val[slices], ndmin=1)
 
     axis = type(self)(values, name=self.name, atts=self.atts, **aux)
+    axis.units = self.units
+    axis.plotatts = self.plotatts.copy()
 
     return axis
   # }}}
@@ -569,7 +571,11 @@ class Axis(Var):
     for k,v in self.auxatts.items(): aux[k] = v
     for k,v in self.auxarrays.items(): aux[k] = v
 
-    return type(self)(values=self.values, name=name, atts=self.atts, **aux)
+    axis = type(self)(values=self.values, name=name, atts=self.atts, **aux)
+    axis.units = self.units
+    axis.plotatts = self.plotatts.copy()
+
+    return axis
 # }}}
 
   # Check if a given string is a meaningful alias to the axis
@@ -639,7 +645,11 @@ class Axis(Var):
 
     name = axes[0].name  #TODO: check all names?
 
-    return cls(values, name=name, atts=atts, **aux)
+    axis = cls(values, name=name, atts=atts, **aux)
+    if all(a.units == axes[0].units for a in axes): axis.units = axes[0].units
+    axis.plotatts = common_dict([a.plotatts for a in axes])
+
+    return axis
   # }}}
 
   # Replace the values of an axis
@@ -647,7 +657,11 @@ class Axis(Var):
   def withnewvalues (self, values):
   # {{{
     # Assume any auxiliary scalars are the same for the new axis
-    return type(self)(values, name=self.name, atts=self.atts, **self.auxatts)
+    axis = type(self)(values, name=self.name, atts=self.atts, **self.auxatts)
+    axis.units = self.units
+    axis.plotatts = self.plotatts.copy()
+
+    return axis
   # }}}
 # }}}
 
-- 
2.43.0


From 0892a6956c62fb63b12ef73c0c37759e99fd0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 20/52] fix: netcdf.save reports a failure to close (flush) the
 file instead of returning normally

---
 pygeode/formats/netcdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 8ba1397..bd1a87d 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -550,8 +550,10 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
     pbar.update(100)
 
   finally:
-    # Finished
-    lib.nc_close(fileid)
+    # Finished (the last of the data may only be written out here)
+    ret = lib.nc_close(fileid)
+
+  if ret != 0: raise IOError(lib.nc_strerror(ret))
 
 #  # Return a function stub for reloading the saved data
 #  from pygeode.var import Var
-- 
2.43.0


From 9167a5e8d175ac117181523884e2ec1cbcbb4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 21/52] fix: hdf4 reader checks the identifiers returned by
 SDselect and SDgetdimid

---
 pygeode/formats/hdf4.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/formats/hdf4.py b/pygeode/formats/hdf4.py
index a0eb47a..33d5add 100644
--- a/pygeode/formats/hdf4.py
+++ b/pygeode/formats/hdf4.py
@@ -103,6 +103,7 @@ class HDF4_SD:
   def __init__(self, f, i):
     from ctypes import create_string_buffer, c_long, byref
     sds_id = lib.SDselect (f.sd_id, i)
+    assert sds_id != -1, 'HDF4 error: SDselect failed for data set %d'%i
 
     name = create_string_buffer(256)
     rank = c_long()
@@ -121,6 +122,7 @@ class HDF4_SD:
     self.natts = natts.value
 
     self.dimids = [lib.SDgetdimid(sds_id, d) for d in range(rank.value)]
+    assert -1 not in self.dimids, "HDF4 error: SDgetdimid failed for '%s'"%self.name
 
     self.iscoord = (lib.SDiscoordvar(sds_id))
     #doesn't seem to be used (at least for MOPITT data)
-- 
2.43.0


From 2b53fd3319d13495ed1367c41142c5408fa6124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:07 +0000
Subject: [PATCH 22/52] fix: one selector per axis must be a tuple, not a list
 (lag, split/join of time axes, complex FFT smoothing, S-transform, file
 tables); S-transform of part of a variable

---
 pygeode/fft_smooth.py           |  2 +-
 pygeode/formats/data_scanner.py |  2 +-
 pygeode/s_trans2.py             | 15 +++++++++------
 pygeode/timeutils.py            |  8 ++++----
 pygeode/tools.py                |  2 +-
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index 1482b1c..ef03f7d 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -38,7 +38,7 @@ class FFTSmoothVar (Var):
     if 'complex' in self.dtype.name:
       ct=fft.fft(src,self.shape[saxis],saxis)
       smsl=[ slice(maxharm,-maxharm+1) if i == saxis else slice(None) for i in range(self.naxes)]
-      ct[smsl]=0
+      ct[tuple(smsl)]=0
       st = fft.ifft(ct, self.shape[saxis], saxis)
     else:
       ct=fft.rfft(src,self.shape[saxis],saxis)
diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 32bf1e3..09f73ea 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -730,7 +730,7 @@ class _DataVar(Var):
       # Note: this may break if there is more than one axis with integer indices.
       assert len([r for r in reorder if isinstance(r,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
       assert len([m for m in mask if isinstance(m,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      out[mask] = chunk[reorder]
+      out[tuple(mask)] = chunk[tuple(reorder)]
       N = N + chunk.size
       pbar.update(100.*N/out.size)
 
diff --git a/pygeode/s_trans2.py b/pygeode/s_trans2.py
index e660c18..8b17a6e 100644
--- a/pygeode/s_trans2.py
+++ b/pygeode/s_trans2.py
@@ -61,7 +61,8 @@ class Strans(Var):
     ti = self.x.whichaxis(Time)
 
     # Use entire time axis, and loop over memory-friendly chunks of data
-    loop = list(view.modify_slice(Time,slice(None)).loop_mem())
+    fullview = view.modify_slice(Time,slice(None))
+    loop = list(fullview.loop_mem())
     # Can't subset over time, because we need the whole timeseries to compute FFT
     assert len(loop[0].integer_indices[-1]) == T, "not enough memory"
     for iloop,v in enumerate(loop):
@@ -72,15 +73,17 @@ class Strans(Var):
       X = np.concatenate((X,X), axis=-1)
 
       F = v.get(self.faxis) * self.dt * T
-      F = np.asarray(np.round(F.squeeze()),int)
+      F = np.asarray(np.round(F.reshape(-1)),int)
 
       #TODO
-      outsl = list(v.slices) # what part of the output we're looking at
+      outsl = list(v.map_to(fullview.clip()).slices) # what part of the output we're looking at
+      outsl[-1] = slice(None) # (already restricted to the requested times)
+      freqs = np.arange(out.shape[-2])[outsl[-2]]
       # Loop over each frequency
       for i in np.arange(len(F)):
-        outsl[-2] = [i] # this particular frequency
+        outsl[-2] = slice(freqs[i], freqs[i]+1) # this particular frequency
         if F[i] == 0:
-          out[outsl] = self.const
+          out[tuple(outsl)] = self.const
           continue
         # create Fourier Transform of Gaussian Window
         M = np.arange(T)
@@ -89,7 +92,7 @@ class Strans(Var):
 
         # compute S-transform
         sample = X[...,F[i]:F[i]+T]
-        out[outsl] = ifft(sample * W, axis=-1)[...,timeslice]
+        out[tuple(outsl)] = ifft(sample * W, axis=-1)[...,timeslice]
 
     return out
 
diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 31de022..e4e44f0 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -332,9 +332,9 @@ class LagVar(Var):
       insl[self.iaxis] = tind[ivalid] + l - imin
       outsl[self.iaxis] = ivalid
       outsl[self.iaxis+1] = i
-      out[outsl] = src[insl]
+      out[tuple(outsl)] = src[tuple(insl)]
       outsl[self.iaxis] = np.where(~valid)[0]
-      out[outsl] = np.nan
+      out[tuple(outsl)] = np.nan
     
     return out
   # }}}
@@ -466,7 +466,7 @@ class SplitTime (Var):
     out = out.reshape(squished_shape)
     sl = [slice(None)] * out.ndim
     sl[iaxis] = out_sl
-    out[sl] = indata
+    out[tuple(sl)] = indata
 
     # Restore the shape
     out = out.reshape(view.shape)
@@ -552,7 +552,7 @@ class JoinTime(Var):
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
     slices[taxis] = uber_time.map_to(times)
-    return data[slices]
+    return data[tuple(slices)]
 # }}}
 # }}}
 
diff --git a/pygeode/tools.py b/pygeode/tools.py
index 602f3ca..7f12ea0 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -654,7 +654,7 @@ def need_full_axes (*iaxes):
         tmp = old_getview (self, smallview, pbar = pbar.part(i,len(viewloop)) )
 
 #        print '??', out.shape, '[', outsl, ']', ' = ', tmp.shape, '[', insl, ']'
-        out[outsl] = tmp[insl]
+        out[outsl] = tmp[tuple(insl)]
 
       return out
 
-- 
2.43.0


From 2e3ba4d2585b70a21a979afaf3e9ace79ae91cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:07 +0000
Subject: [PATCH 23/52] fix: View.get with repeated indices along an axis
 raised instead of repeating values

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index a7b06bd..c4a560e 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -233,7 +233,7 @@ class View:
 
     # Only request unique elements from the input
     unique_indices = [np.unique(ind) for ind in newview.integer_indices]
-    if all(np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
+    if all(np.array_equal(u, ind) for u,ind in zip(unique_indices, newview.integer_indices)):
       # already unique
       duplicator = ()
       unique_view = newview
-- 
2.43.0


From e477e9f0b3e51b8a34a9613936ecd46e8376e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 24/52] fix: SVD starts from a fixed seed, so the same data
 gives the same result

---
 pygeode/svd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index 5be4c78..a841057 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -161,8 +161,10 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   X = np.empty(eofshape2,dtype='d')
   U = np.empty(eofshape1,dtype='d')
   # Seed with sinusoids superimposed on random values
-  Y = np.random.rand(*eofshape1)
-  V = np.random.rand(*eofshape2)
+  # (from a fixed seed, so the same data always gives the same result)
+  rng = np.random.RandomState(0)
+  Y = rng.rand(*eofshape1)
+  V = rng.rand(*eofshape2)
   from math import pi
   for i in range(subspace):
     Y[i,...].reshape(NX1)[:] += np.cos( np.arange(NX1,dtype='d') / NX1 * 2 * pi * (i+1))
-- 
2.43.0


From b33c161c258590717e4e1716e17daa7c65c3411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 25/52] fix: expand globs in sorted order when sorting is off,
 not in directory order

---
 pygeode/formats/multifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index dd7dcf6..d5035fd 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -8,7 +8,7 @@ def expand_file_list (file_list, sort=True):
   from glob import iglob
   from os.path import exists
   if not isinstance(file_list, (list,tuple)): file_list = [file_list]
-  files = [ f for file_glob in file_list for f in iglob(file_glob)]
+  files = [ f for file_glob in file_list for f in sorted(iglob(file_glob))]
   assert len(files) > 0, 'No matches found'
   for f in files: assert exists(f), str(f)+" doesn't exist"
   if sort: files.sort()
-- 
2.43.0


From eee69828565dc21c043ca0e82aa909933febf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 26/52] fix: from_files returns its datasets in a reproducible
 order

---
 pygeode/formats/data_scanner.py | 40 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 09f73ea..7c43a58 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -421,13 +421,15 @@ def _get_axis_names (domains):
 #                 These are appended to an existing set passed in.
 # Output: the domains that could be aggregated along to given axis.
 #         Domains without that axis type are ignored.
+# NOTE: collections of domains are lists without duplicates, in the order the
+#       domains are found (the order of a set would differ between runs).
 def _aggregate_along_axis (domains, axis_name):
-  output = set()
+  output = {}
   bins = {}
   for domain in domains:
     iaxis = domain.which_axis(axis_name)
     if iaxis is None:
-      output.add(domain)
+      output.setdefault(domain)
       continue
     domain_group = domain.without_axis(iaxis)
     axis_bin = bins.setdefault(domain_group,set())
@@ -442,9 +444,9 @@ def _aggregate_along_axis (domains, axis_name):
     # Otherwise, need to aggregate pieces together.
     else:
       axis_values = frozenset.union(*axis_bin)
-    output.add(domain_group.with_axis(axis_name,axis_values))
+    output.setdefault(domain_group.with_axis(axis_name,axis_values))
 
-  return output
+  return list(output)
 
 
 # Find a minimal set of domains that cover all available data
@@ -461,7 +463,7 @@ def _get_prime_domains (domains):
 # concatenated.  All other axes will be intersected between domains.
 def _merge_domains (d1, d2):
   from copy import copy
-  domains = set()
+  domains = []
   axis_names = _get_axis_names([d1,d2])
   # We need at least one of the two domains to contain all the types
   # (so we have a deterministic ordering of axes).
@@ -472,7 +474,7 @@ def _merge_domains (d1, d2):
   elif _get_axis_names([d2]) == axis_names:
     d1, d2 = d2, d1  # Swap
   else:
-    return set()  # Nothing can be done
+    return []  # Nothing can be done
   del axis_names
 
   # Pre-compute union and intersection of the axes.
@@ -505,7 +507,7 @@ def _merge_domains (d1, d2):
     intersections.append(intersection)
     unions.append(union)
   if non_intersectable > 1:
-    return set()  # We will alway have an empty domain after a merge
+    return []  # We will alway have an empty domain after a merge
                   # where multiple dimensions have no overlap.
 
 
@@ -518,23 +520,23 @@ def _merge_domains (d1, d2):
     if any(len(v) == 0 for v in axis_values): continue
     domain = copy(d1)
     domain.axis_values = tuple(axis_values)
-    domains.add(domain)
+    domains.append(domain)
 
   return domains
 
 def _merge_all_domains (domains):
-  merged_domains = set(domains)
+  merged_domains = dict.fromkeys(domains)
   while True:
-    new_merged_domains = set()
+    new_merged_domains = []
     for d1 in domains:
       for d2 in merged_domains:
         if d1 is d2: continue
-        new_merged_domains.update(_merge_domains(d1,d2))
-    new_merged_domains -= merged_domains
+        new_merged_domains.extend(_merge_domains(d1,d2))
+    new_merged_domains = [d for d in new_merged_domains if d not in merged_domains]
     if len(new_merged_domains) == 0: break  # Nothing new added
-    merged_domains.update(new_merged_domains)
+    for d in new_merged_domains: merged_domains.setdefault(d)
 
-  return domains | merged_domains
+  return list(merged_domains)
 
 # Remove any domains that are proper subsets of other domains
 # (Clean up anything that is not needed).
@@ -550,7 +552,7 @@ def _cleanup_subdomains (domains):
       values2 = [d2.get_axis_values(a) for a in axis_names]
       if all(v1 <= v2 for v1, v2 in zip(values1,values2)):
         junk_domains.add(d1)
-  return domains - junk_domains
+  return [d for d in domains if d not in junk_domains]
 
 
 
@@ -558,16 +560,16 @@ def _cleanup_subdomains (domains):
 def _get_domains (manifest, axis_manager):
 
   # Start by adding all domain pieces to the list
-  domains = set()
+  domains = {}
   for entries in manifest.values():
     for var, axes, atts in entries:
       # Map each entry to a domain.
       axes = (_Varlist.singlevar(var),)+axes
       axis_values = list(map(axis_manager._settify_axis, axes))
-      domains.add(_Domain(axis_samples=axes, axis_values=axis_values))
+      domains.setdefault(_Domain(axis_samples=axes, axis_values=axis_values))
 
   # Reduce this to a minimal number of domains for data coverage
-  domains = _get_prime_domains(domains)
+  domains = _get_prime_domains(list(domains))
   # Try merging domains together in different ways to get different coverage.
   # Continue until we found all the unique combinations.
   while True:
@@ -620,7 +622,7 @@ def from_files (filelist, interface, manifest=None, save_manifest=True, opener_a
   # (evaluate to a list of files).
   if isinstance(filelist,str):
     from glob import glob
-    filelist = glob(filelist)
+    filelist = sorted(glob(filelist))
 
   # Determine what kind of parameter was passed for the 'interface', and
   # find a file opener from this.
-- 
2.43.0


From 02268cd7e3907073c203ab497bcca6d4bb326f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 27/52] fix: splittimeaxis kept no attributes, plot attributes
 or units of its input

---
 pygeode/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index e4e44f0..ca7d474 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -424,10 +424,10 @@ class SplitTime (Var):
     axes = list(var.axes)
     axes = axes[:iaxis] + [years, days] + axes[iaxis+1:]
 
-    copy_meta(var,self)
-
     Var.__init__(self, axes=axes, dtype=var.dtype)
 
+    copy_meta(var,self)
+
     self.iaxis = iaxis
     self.var = var
 # }}}
-- 
2.43.0


From 8f8d2a558d1e78f0a1f6a9aca3e92879a0da94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 28/52] fix: reductions, smoothing, interpolation and
 composites dropped the units of their input

---
 pygeode/composite.py  | 1 +
 pygeode/fft_smooth.py | 1 +
 pygeode/interp.py     | 1 +
 pygeode/reduce.py     | 9 +++++++++
 pygeode/smooth.py     | 1 +
 pygeode/timeutils.py  | 1 +
 6 files changed, 14 insertions(+)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 1c2dc68..3b40f74 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -76,6 +76,7 @@ class CompositeVar(Var):
       #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
          #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
     Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    self.units = var.units
   #}}}
 
   def getview (self, view, pbar):
diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index ef03f7d..00194fb 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -13,6 +13,7 @@ class FFTSmoothVar (Var):
     self.var = var
     self.maxharm = maxharm
     Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    self.units = var.units
   # }}}
 
   def getview (self, view, pbar):
diff --git a/pygeode/interp.py b/pygeode/interp.py
index b3bcb40..063dd1c 100644
--- a/pygeode/interp.py
+++ b/pygeode/interp.py
@@ -91,6 +91,7 @@ class Interp (Var):
     self.omit_nonmonotonic = omit_nonmonotonic
 
     Var.__init__ (self, outaxes, name=invar.name, dtype='d', atts=invar.atts, plotatts=invar.plotatts)
+    self.units = invar.units
 # }}}
 
   def getview (self, view, pbar=None):
diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 6f47b7b..19b750c 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -9,6 +9,9 @@ from pygeode.var import Var
 #########################
 class ReducedVar(Var):
 # {{{
+  # Does this reduction return values in the units of its input?
+  _keeps_units = True
+
   def __new__ (type, var, indices, *args, **kwargs):
   # {{{
     from pygeode.var import Var
@@ -67,6 +70,7 @@ class ReducedVar(Var):
     axes = [a for i,a in enumerate(axes) if i not in indices]
 
     Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    if self._keeps_units: self.units = var.units
 
   # }}}
 # }}}
@@ -352,6 +356,7 @@ class WeightedNANMeanVar(ReducedVar):
 #TODO: make it more numerically stable, add weights
 class VarianceVar(ReducedVar):
 # {{{
+  _keeps_units = False
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -367,6 +372,7 @@ class VarianceVar(ReducedVar):
 # }}}
 class WeightedVarianceVar(ReducedVar):
 # {{{
+  _keeps_units = False
   '''WeightedVarianceVar(ReducedVar) - computes weighted mean.'''
   def __init__(self, var, indices, weights):
   # {{{
@@ -399,6 +405,7 @@ class WeightedVarianceVar(ReducedVar):
 # NB: There is possibly an issue with this for integer datatypes
 class NANVarianceVar(ReducedVar):
 # {{{
+  _keeps_units = False
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -427,6 +434,7 @@ class NANVarianceVar(ReducedVar):
 # naive single-pass standard deviation
 class SDVar(VarianceVar):
 # {{{
+  _keeps_units = True
   def getview (self, view, pbar):
     import numpy as np
     variance = VarianceVar.getview (self, view, pbar)
@@ -440,6 +448,7 @@ class SDVar(VarianceVar):
 # }}}
 class NANSDVar(NANVarianceVar):
 # {{{
+  _keeps_units = True
   def getview (self, view, pbar):
     import numpy as np
     variance = NANVarianceVar.getview (self, view, pbar)
diff --git a/pygeode/smooth.py b/pygeode/smooth.py
index c0c70dc..2dadcfa 100644
--- a/pygeode/smooth.py
+++ b/pygeode/smooth.py
@@ -41,6 +41,7 @@ class SmoothVar (Var):
         self._convolve = sg.convolve
 
     Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    self.units = var.units
   # }}}
 
   def getview (self, view, pbar):
diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index ca7d474..9f5e770 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -307,6 +307,7 @@ class LagVar(Var):
     self.var = var
 
     Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    self.units = var.units
   # }}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From e559dbcc1361617d280760f2583dd2cf04f55cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 29/52] fix: flatten dropped the attributes, plot attributes
 and units of its input

---
 pygeode/composite.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 3b40f74..832e314 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -236,9 +236,8 @@ class FlattenVar(Var):
     self.stride = stride
     self.source_var = var
 
-    self.name = var.name
-
-    Var.__init__(self, axes, var.dtype)
+    Var.__init__(self, axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    self.units = var.units
   #}}}
 
   def getview (self, view, pbar):
-- 
2.43.0


From 53a4d5d337b478e1cbd64b4b653c2a10bd173688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 30/52] fix: climatological operations dropped the plot
 attributes and units of their input

---
 pygeode/climat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 562edd4..47f2153 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -166,6 +166,7 @@ class Seasonal(TimeMap):
 class TimeOp(Var):
 # {{{
   extra_dims = ()  # Override this in a subclass if needed (see Trend class)
+  _keeps_units = True  # Does this operation return values in the units of its input?
   def __init__ (self, var):
     from pygeode.var import Var
     from pygeode.timeaxis import CalendarTime
@@ -182,7 +183,8 @@ class TimeOp(Var):
 
     axes = list(var.axes)
     axes[ti] = outtime
-    Var.__init__ (self, axes+list(self.extra_dims), dtype = var.dtype, atts=var.atts)
+    Var.__init__ (self, axes+list(self.extra_dims), dtype = var.dtype, atts=var.atts, plotatts=var.plotatts)
+    if self._keeps_units: self.units = var.units
 # }}}
 
 class Mean(TimeOp):
@@ -285,6 +287,7 @@ class NANStdev(TimeOp):
 
 class Count(TimeOp):
 # {{{
+  _keeps_units = False
   name_suffix2 = '_nancount'
 
   def getview (self, view, pbar):
@@ -304,6 +307,7 @@ class Count(TimeOp):
 
 class Trend(TimeOp):
 # {{{
+  _keeps_units = False
   name_suffix2 = '_trend'
   from pygeode.axis import Coef
   extra_dims = (Coef(2),)
-- 
2.43.0


From db1d2943d51d00a88222707a1d029000b79790e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 31/52] fix: difference, paired_difference and isnonzero
 default to all axes when axes is not given

---
 pygeode/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b14b690..3cfc5bf 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -674,6 +674,8 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
       ri_new.append(i)
     oiaxes.extend([r for r in riaxes if r not in ri_new])
     riaxes = ri_new
+  else:
+    axes = [srcaxes[i].name for i in riaxes]
 
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
@@ -886,6 +888,8 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
       ri_new.append(i)
     oiaxes.extend([r for r in riaxes if r not in ri_new])
     riaxes = ri_new
+  else:
+    axes = [srcaxes[i].name for i in riaxes]
 
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
@@ -1043,6 +1047,7 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum
   from pygeode.view import View
 
+  if axes is None: axes = X.axes
   riaxes = [X.whichaxis(n) for n in axes]
   raxes = [a for i, a in enumerate(X.axes) if i in riaxes]
   oaxes = [a for i, a in enumerate(X.axes) if i not in riaxes]
-- 
2.43.0


From 7584ee78dba52ee58af0dafc6d2e2b8bef1e8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 32/52] fix: decode_cf: attach auxiliary arrays to axes whose
 class does not change

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad79c9..606c28c 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -455,7 +455,7 @@ def decode_cf (dataset, ignore=[]):
     if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
 
     # create new axis instance if need be.
-    if cls != type(a):
+    if cls != type(a) or len(aux) > 0:
       axisdict[name] = cls(values=a.values, name=name, atts=atts, **aux)
 
   # Apply these new axes to the variables
-- 
2.43.0


From df06569e35c378109b53ce895110de14c672f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 33/52] fix: encode_cf: keep auxiliary arrays whose names are
 part of 'lat lon'

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 606c28c..1502140 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -216,7 +216,7 @@ def encode_cf (dataset):
       # Encode other auxarrays as generic "ancillary" arrays.
       ancillary_variables = []
       for auxname in list(a.auxarrays.keys()):
-        if auxname in coordinates: continue  # Handled above
+        if auxname in ('lat', 'lon'): continue  # Handled above
         var = a.auxasvar(auxname)
         if var.dtype.name.startswith('str'):
           var = encode_string_var(var)
-- 
2.43.0


From 5b232ddf71606a0eb3faaa57eba7bbcc4e8dc5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 34/52] fix: decode_cf: a fill value of zero is a fill value

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 1502140..f5ece61 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -468,7 +468,7 @@ def decode_cf (dataset, ignore=[]):
     atts = oldvar.atts.copy()
     plotatts = oldvar.atts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f]
+    fillvalue = [_f for _f in fillvalue if _f is not None]
     fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
-- 
2.43.0


From 120c167a9707f1fe54ee9316161861e75ba4e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 35/52] fix: decode_cf: only calendar 'none' is Yearless

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index f5ece61..a8615db 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -385,7 +385,7 @@ def decode_cf (dataset, ignore=[]):
       if _calendar in ('standard', 'gregorian', 'proleptic_gregorian'): cls = StandardTime
       elif _calendar in ('365_day', 'noleap', '365day'): cls = ModelTime365
       elif _calendar in ('360_day', '360day'): cls = ModelTime360
-      elif _calendar in ('none'): cls = Yearless
+      elif _calendar == 'none': cls = Yearless
       else:
         warn ("unknown calendar '%s'"%_calendar)
         continue
-- 
2.43.0


From f7bdd80bbd762f891f75e0a9fa666dd197c36dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 36/52] fix: netCDF-3: write uint32 data as doubles, which hold
 every value

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index bd1a87d..e26f589 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -20,7 +20,7 @@ NC_MAX_VAR_DIMS = NC_MAX_DIMS
 
 nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
-           'uint32':4, 'int64':6, 'uint64':6}
+           'uint32':6, 'int64':6, 'uint64':6}
 
 nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
-- 
2.43.0


From bd5a1e499262d592bd57f8c5ffbbfc0c94f9c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 37/52] fix: asdataset: copy=True failed because the argument
 shadowed the copy function

---
 pygeode/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/dataset.py b/pygeode/dataset.py
index d66723c..cae1341 100644
--- a/pygeode/dataset.py
+++ b/pygeode/dataset.py
@@ -632,7 +632,7 @@ def asdataset (vars, copy=False, print_warnings=True):
       returns a Dataset wrapping them. If there are datasets present in the
       list, it merges them into a single dataset. '''
 
-  from copy import copy
+  from copy import copy as shallow_copy
   from pygeode.var import Var
   if hasattr(vars, '__len__') and any([isinstance(d, Dataset) for d in vars]):
     d = [d for d in vars if isinstance(d, Dataset)]
@@ -642,7 +642,7 @@ def asdataset (vars, copy=False, print_warnings=True):
     return d[0].add(*args)
   if isinstance(vars,Dataset):
     if not copy: return vars
-    dataset = copy(vars)
+    dataset = shallow_copy(vars)
     #TODO: update if more members are added to this class
     dataset.vars = list(dataset.vars)
     dataset.vardict = dataset.vardict.copy()
-- 
2.43.0


From 0ac03bef7a24f2a6234c563b89a8dd9cc0034e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:02 +0000
Subject: [PATCH 38/52] fix: View.get and Var.get accept every way of asking
 for a progress display

---
 pygeode/progress.py | 2 +-
 pygeode/view.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygeode/progress.py b/pygeode/progress.py
index 6f97752..316a680 100644
--- a/pygeode/progress.py
+++ b/pygeode/progress.py
@@ -137,7 +137,7 @@ class FakePBar:
 
 # Wrap some possible non-progressbar things (message string, True/False/None) into a progress bar
 def as_pbar (x):
-  if isinstance(x,PBar): return x
+  if isinstance(x,(PBar,FakePBar)): return x
   if x is False or x is None: return FakePBar()
   if x is True: return PBar()
   if isinstance(x,str): return PBar(message=x)
diff --git a/pygeode/view.py b/pygeode/view.py
index c4a560e..49c7c80 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -205,8 +205,8 @@ class View:
     import numpy as np
     from warnings import warn
 
-    from pygeode.progress import FakePBar
-    if pbar is False or pbar is None: pbar = FakePBar()
+    from pygeode.progress import as_pbar
+    pbar = as_pbar(pbar)
 
     assert strict in (True, False)
     assert conform in (True, False)
-- 
2.43.0


From 193b548c1a23dd917e09085ecab3a2f2e696830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:02 +0000
Subject: [PATCH 39/52] fix: interpolation, derivatives and integrals report
 all their reads to the display given

---
 pygeode/deriv.py  |  8 ++++----
 pygeode/interp.py | 12 ++++++------
 pygeode/intgr.py  |  2 +-
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 6ea382e..1fb8eb6 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -78,8 +78,8 @@ class DerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
-    allaxis = allview.get(self.dx)
+    allvalues = allview.get(self.var, pbar=pbar.subset(0, 70))
+    allaxis = allview.get(self.dx, pbar=pbar.subset(70, 100))
 
     # Define a map from these unique points back to the left & right arrays
     getleft = np.searchsorted(allpoints,left)
@@ -162,8 +162,8 @@ class SecondDerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
-    allaxis = allview.get(self.dx)
+    allvalues = allview.get(self.var, pbar=pbar.subset(0, 70))
+    allaxis = allview.get(self.dx, pbar=pbar.subset(70, 100))
 
     # Define a map from these unique points back to the left & right arrays
     getleft = np.searchsorted(allpoints,left)
diff --git a/pygeode/interp.py b/pygeode/interp.py
index 063dd1c..c9637e9 100644
--- a/pygeode/interp.py
+++ b/pygeode/interp.py
@@ -20,8 +20,8 @@ class SortedVar (Var):
     axes[iaxis] = newaxis
     Var.__init__(self, axes, dtype=invar.dtype, name=invar.name, atts=invar.atts, plotatts=invar.plotatts)
 
-  def getview (self, view):
-    return view.get(self.var)
+  def getview (self, view, pbar):
+    return view.get(self.var, pbar=pbar)
 # }}}
 
 def sorted (var, iaxis, reverse=False):
@@ -94,7 +94,7 @@ class Interp (Var):
     self.units = invar.units
 # }}}
 
-  def getview (self, view, pbar=None):
+  def getview (self, view, pbar):
 # {{{
     import numpy as np
     # Use unsafe pointer casting to an integer (easier to pass to C extension)
@@ -106,7 +106,7 @@ class Interp (Var):
     insl = list(view.slices)
     insl[-1] = slice(None)
     inview = view.replace_axis(self.naxes-1, self.invar.axes[-1])
-    indata = inview.get(self.invar)
+    indata = inview.get(self.invar, pbar=pbar.subset(0, 60))
     outdata = np.empty(view.shape, dtype=self.dtype)
 
     # Get the input/output interpolation coordinates
@@ -114,7 +114,7 @@ class Interp (Var):
     outx = self.outx
 
     # Input coordinates
-    inx_data = inview.get(inx)
+    inx_data = inview.get(inx, pbar=pbar.subset(60, 80))
     if inx.naxes == 1: loop_inx = 0
     else:
       loop_inx = 1
@@ -124,7 +124,7 @@ class Interp (Var):
           inx_data = np.repeat(inx_data, indata.shape[i], axis=i)
 
     # Output coordinates
-    outx_data = view.get(outx)
+    outx_data = view.get(outx, pbar=pbar.subset(80, 100))
     if outx.naxes == 1: loop_outx = 0
     else:
       loop_outx = 1
diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 1f43613..6845124 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -80,7 +80,7 @@ class IntegrateVar (Var):
 
     # Compute differences
     if not self.type == 'cumsum':
-      d = np.diff(inview.get(self.dx), axis=iaxis)
+      d = np.diff(inview.get(self.dx, pbar=pbar.subset(90, 100)), axis=iaxis)
 
     sl1 = [slice(None)] * self.naxes
     sl2 = [slice(None)] * self.naxes
-- 
2.43.0


From 4d8881d21b8647f475b8b659c70c7b634f37385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:46 +0000
Subject: [PATCH 40/52] fix: netcdf.save: an attribute that cannot be stored no
 longer drops the ones after it

---
 pygeode/formats/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index e26f589..2ed0a5a 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -115,10 +115,10 @@ def put_attributes (fileid, varid, atts, version):
       # Drop unsupported data types
       if value.dtype.name.startswith('string'):
         warn ("no support for writing attributes containing an array of strings", stacklevel=3)
-        return
+        continue
       if value.dtype.name not in nc_type[version]:
         warn ("skipping attribute %s = %s  (unsupported type %s)"%(name,value,value.dtype.name), stacklevel=3)
-        return
+        continue
       # Scalar?
       if value.shape == (): value = value.reshape([1])
       vtype = nc_type[version][value.dtype.name]
-- 
2.43.0


From 5cc37908e9af5f8a641ad5546d3a15deec5903b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:29 +0000
Subject: [PATCH 41/52] fix: argmax and argmin read the axis they search whole

---
 pygeode/reduce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 19b750c..6dc789a 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -148,7 +148,7 @@ class ArgMaxVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmax(indata, index)
     return out
 # }}}
@@ -177,7 +177,7 @@ class ArgMinVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmin(indata, index)
     return out
 # }}}
-- 
2.43.0


From 4eba33aaa081daf598a1110f73489a44133c9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 42/52] fix: netCDF reads close the file when they fail

---
 pygeode/formats/netcdf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 2ed0a5a..0bf9ae6 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -254,10 +254,12 @@ class NCVar(Var):
     import numpy as np
     already_opened = self._f.opened()
     if not already_opened: self._f.open()
-    # allocate space for loading the data
-    out = np.empty(count, numpy_type[self._vtype])
-    load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
-    if not already_opened: self._f.close()
+    try:
+      # allocate space for loading the data
+      out = np.empty(count, numpy_type[self._vtype])
+      load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
+    finally:
+      if not already_opened: self._f.close()
 
     return out
   # }}}
-- 
2.43.0


From 3ed93865073c4564ed3cf8916a26ec065aa1aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 43/52] fix: an NCFile can be used in a with block

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 0bf9ae6..9ed92fd 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -181,7 +181,7 @@ class NCFile:
     if self.ctypes.c_int is not None:
       self.fileid = self.ctypes.c_int(-1)  # use class-level ctypes reference to avoid errors during cleanup
   def __enter__(self): return self
-  def __exit__(self): self.close()
+  def __exit__(self, *exc): self.close()
 
 # }}}
 
-- 
2.43.0


From 7b2da83aba93a2335cd081b8a5cc21b9655104ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 44/52] fix: netcdf4.open closes the file when it fails

---
 pygeode/formats/netcdf4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 4600d26..e02a048 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -228,8 +228,8 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
   from pygeode.axis import Axis
 
   # Read the file
+  f = nc.Dataset(filename,"r")
   try:
-    f = nc.Dataset(filename,"r")
     if f.groups:
       dataset =  {str(key): make_dataset(value) for key, value in f.groups.items()}
       dataset =  {str(key): dims2axes(value) for key, value in dataset.items()}
@@ -257,7 +257,8 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
       # with the same name as the dimension)
       dataset = dims2axes(dataset)
       return finalize_open(dataset, dimtypes, namemap, varlist, cfmeta)
-  except IOError:  # Problem accessing the file?
+  except:  # Nothing is returned that could use the file
+    f.close()
     raise
 # }}}
 
-- 
2.43.0


From 48b88daf1610acafa29bee82db923f394101f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 45/52] fix: read_grad closes its file

---
 pygeode/plot/cm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/cm.py b/pygeode/plot/cm.py
index 0485d9d..45fed05 100644
--- a/pygeode/plot/cm.py
+++ b/pygeode/plot/cm.py
@@ -215,14 +215,14 @@ def read_grad(path, rev=False):
   import matplotlib
   import re
   ct = dict(red=[], blue=[], green=[])
-  f = open(path)
+  with open(path) as f: lines = f.readlines()
   pattern = r'color-stop\((?P<stop>[0-9]\.?[0-9]*), rgb\((?P<r>[0-9]*),(?P<g>[0-9]*),(?P<b>[0-9]*)\)'
   pattern2 = r'color-stop\((?P<stop>[0-9]\.?[0-9]*), rgb\((?P<r>[0-9]*),(?P<g>[0-9]*),(?P<b>[0-9]*)\), rgb\((?P<r2>[0-9]*),(?P<g2>[0-9]*),(?P<b2>[0-9]*)\)'
 
   st = lambda g: float(g['stop'])
   c = lambda g, cl: float(g[cl])/255.
 
-  for l in f.readlines():
+  for l in lines:
     d = re.match(pattern2, l)
     twoside = True
     if d is None: 
-- 
2.43.0


From cf01d1e4d9c995f7484ebf041b462fbf93085f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 46/52] fix: plot save and load close their file, and use
 binary modes

---
 pygeode/plot/wrappers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index d4593f6..0cf8544 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -497,18 +497,16 @@ AxesWrapper.imshow = make_plot_member(imshow)
 def save (fig, filename):
 # {{{
   import pickle
-  outfile = open(filename,'w')
-  pickle.dump(fig, outfile)
-  outfile.close()
+  with open(filename,'wb') as outfile:
+    pickle.dump(fig, outfile)
 # }}}
 
 # Module-level routine for loading a plot from file
 def load (filename):
 # {{{
   import pickle
-  infile = open(filename,'ro')
-  theplot = pickle.load(infile)
-  infile.close()
+  with open(filename,'rb') as infile:
+    theplot = pickle.load(infile)
   return theplot
 # }}}
 
-- 
2.43.0


From a2485a7d2880b402992b35d3be325d78183aade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 47/52] fix: savepages closes the PDF when a page fails

---
 pygeode/plot/pyg_helpers.py | 74 +++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 96600c0..5bd5254 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -1125,42 +1125,44 @@ def savepages(figs, fn, psize='A4', marg=0.5, scl=1.):
   from matplotlib.backends.backend_pdf import PdfPages
   pp = PdfPages(fn)
 
-  page = 1
-  nfigs = 0
-  hlast = 0
-  for f in figs:
-    w = f.size[0] / pwidth * scl
-    h = f.size[1] / pheight * scl
-
-    if x + w < 1. - xmarg:
-      r = [x, y - h, x + w, y]
-      ax.add_axis(f, r)
-      x += w
-      hlast = max(h, hlast)
-      nfigs += 1
-    else:
-      x = xmarg
-      y = y - hlast
-
-      if nfigs > 0 and y - h < ymarg:
-        fig = ax.render('page%d' % page)
-        pp.savefig(fig)
-        ax = wr.AxesWrapper(size=psize)
-        y = 1. - ymarg
-        print('Page %d, %d figures.' % (page, nfigs))
-        page += 1
-        nfigs = 0
-
-      r = [x, y - h, x + w, y]
-      ax.add_axis(f, r)
-      x = x + w
-      hlast = h
-      nfigs += 1
-
-  print('Page %d, %d figures.' % (page, nfigs))
-  fig = ax.render('page%d'%page, show=False)
-  pp.savefig(fig)
-  pp.close()
+  try:
+    page = 1
+    nfigs = 0
+    hlast = 0
+    for f in figs:
+      w = f.size[0] / pwidth * scl
+      h = f.size[1] / pheight * scl
+
+      if x + w < 1. - xmarg:
+        r = [x, y - h, x + w, y]
+        ax.add_axis(f, r)
+        x += w
+        hlast = max(h, hlast)
+        nfigs += 1
+      else:
+        x = xmarg
+        y = y - hlast
+
+        if nfigs > 0 and y - h < ymarg:
+          fig = ax.render('page%d' % page)
+          pp.savefig(fig)
+          ax = wr.AxesWrapper(size=psize)
+          y = 1. - ymarg
+          print('Page %d, %d figures.' % (page, nfigs))
+          page += 1
+          nfigs = 0
+
+        r = [x, y - h, x + w, y]
+        ax.add_axis(f, r)
+        x = x + w
+        hlast = h
+        nfigs += 1
+
+    print('Page %d, %d figures.' % (page, nfigs))
+    fig = ax.render('page%d'%page, show=False)
+    pp.savefig(fig)
+  finally:
+    pp.close()
 # }}}
 
 __all__ = ['showvar', 'showcol', 'showgrid', 'showlines', 'vplot', 'vscatter', \
-- 
2.43.0


From 09a5d100170739061fb61e5bf19c8c0080b595e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 48/52] fix: GRIB indexing closes its files when it fails

---
 pygeode/formats/grib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index c05486b..122bb5c 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -451,9 +451,9 @@ int make_index (char *gribfile, char *indexfile) {
     unsigned char pv[2][MAX_LEVELS][4];
     int n;
     n = fread (&(pv[0][0][0]), 4, gds.nv/2, f);
-    if (n != gds.nv/2) return -1;
+    if (n != gds.nv/2) { fclose(f); return -1; }
     n = fread (&(pv[1][0][0]), 4, gds.nv/2, f);
-    if (n != gds.nv/2) return -1;
+    if (n != gds.nv/2) { fclose(f); return -1; }
     skip_BDS(f);
     read_EOR(f);
 
@@ -653,6 +653,7 @@ int read_Index (char *indexfile, Index **index) {
     // Note: length is scaled by 2 here (since we're separating a and b)
     if (v->nv % 2 != 0) {
       fprintf (stderr, "read_index: nv parity error\n");
+      fclose(f);
       return -1;
     }
     //assert (v->nv % 2 == 0);
-- 
2.43.0


From efa53ed145a9031b68f54b7207cd793e487ef3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 49/52] fix: partial sums convert values in the other byte
 order

---
 pygeode/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 7f12ea0..a694cbf 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -461,6 +461,8 @@ def partial_sum (arr, sl, bigout, bigcount, iaxis, outmap):
 # {{{
   import numpy as np
 
+  # The C code needs contiguous values, in native byte order
+  arr = np.ascontiguousarray(arr, dtype=arr.dtype.newbyteorder('='))
 #  out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=bigout.dtype)
   out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=arr.dtype)
   count = np.zeros(arr.shape[:iaxis] + (bigcount.shape[iaxis],) + arr.shape[iaxis+1:], dtype='int32')
@@ -493,6 +495,8 @@ def partial_nan_sum (arr, sl, bigout, bigcount, iaxis, outmap):
 # {{{
   import numpy as np
 
+  # The C code needs contiguous values, in native byte order
+  arr = np.ascontiguousarray(arr, dtype=arr.dtype.newbyteorder('='))
 #  out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=bigout.dtype)
   out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=arr.dtype)
   count = np.zeros(arr.shape[:iaxis] + (bigcount.shape[iaxis],) + arr.shape[iaxis+1:], dtype='int32')
-- 
2.43.0


From 17f3b3eb38cccadde168ba07f53a1b943fb4ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 50/52] fix: tools.common_map calls its native routine as it is

---
 pygeode/tools.c  |  8 ++++----
 pygeode/tools.py | 19 +++----------------
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/pygeode/tools.c b/pygeode/tools.c
index c62703b..8760c2f 100644
--- a/pygeode/tools.c
+++ b/pygeode/tools.c
@@ -155,7 +155,7 @@ int map_to (int na, double *a_orig, int nb, double *b_orig, int *indices, double
 // I.e., (1,3,5,7,9),(2,3,5,7) -> (-1,1,2,3,-1),(-1,1,2,3)
 //TODO: use a relative tolerance in the comparisons?
 // (right now, it's an exact match or nothing)
-int common_map (int na, double *a, int nb, double *b, int *nmap, int *a_map, int *b_map) {
+int common_map (int na, double *a, int nb, double *b, int *nmap, int *a_map, int *b_map, double rtol) {
 
   //const double rtol=1e-05;
   //const double atol=1e-08;
@@ -163,9 +163,9 @@ int common_map (int na, double *a, int nb, double *b, int *nmap, int *a_map, int
   int ai = 0, bi = 0;
   int m = 0;
   while (ai < na && bi < nb) {
-    int cmp = a[ai] - b[bi];
+    double cmp = a[ai] - b[bi];
     // A match?
-    if (cmp == 0) {
+    if (fabs(cmp) <= rtol * fabs(b[bi])) {
       a_map[m] = ai;
       b_map[m] = bi;
       m++;
@@ -398,7 +398,7 @@ static PyObject *toolscore_common_map (PyObject *self, PyObject *args) {
 
   common_map (na, (double *)PyArray_DATA(a_array), 
               nb, (double *)PyArray_DATA(b_array), 
-              (int *) &nmap, a_map, b_map);
+              (int *) &nmap, a_map, b_map, rtol);
 
   // Create output arrays for the maps
   a_ind = (PyArrayObject*)PyArray_SimpleNewFromData(1, &nmap, NPY_INT, a_map);
diff --git a/pygeode/tools.py b/pygeode/tools.py
index a694cbf..4702cfc 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -317,30 +317,17 @@ def order (a):
 #  (0,1,2,6), (0,2,3,5)  - corresponding to elements 1,3,5, and 13.
 # One requirement is that the elements are unique.
 # Otherwise the mapping becomes ambiguous and/or combinatorially large (O(N^2))
-def common_map (a, b):
+def common_map (a, b, rtol=1e-5):
 # {{{
   import numpy as np
-  from ctypes import c_int, byref
   a = np.asarray(a)
   b = np.asarray(b)
-  na = len(a)
-  nb = len(b)
   a_ind = np.argsort(a) # sorting order
   b_ind = np.argsort(b)
   a = np.ascontiguousarray(a[a_ind],dtype='d')  # do the sort
   b = np.ascontiguousarray(b[b_ind],dtype='d')
-  nmap = max(na,nb)
-  a_map = np.empty(nmap, 'int32')
-  b_map = np.empty(nmap, 'int32')
-
-  nmap = c_int(nmap)
-  ier = libmisc.common_map(na, point(a), nb, point(b), byref(nmap), point(a_map), point(b_map))
-  assert ier == 0
-  nmap = nmap.value
-
-  # filter out unmapped indices
-  a_map = a_map[:nmap]
-  b_map = b_map[:nmap]
+  # (unmapped indices are already filtered out)
+  a_map, b_map = libmisc.common_map(a, b, rtol)
   # convert the indices (they're still relative to the sorted order)
   a_map = a_ind[a_map]
   b_map = b_ind[b_map]
-- 
2.43.0


From 397d4f360f2779b4fc01ceee8c89b2bf5dc1a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 51/52] fix: GRIB routines take the pointer out of the capsule
 they are given

---
 pygeode/formats/grib.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index 122bb5c..3efbfca 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -1018,7 +1018,7 @@ static PyObject *gribcore_get_varcode (PyObject *self, PyObject *args) {
   int v;
   int center, table, varid, level_type;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int ret = get_varcode (index, v, &center, &table, &varid, &level_type);
   if (ret != 0) return NULL;
   return Py_BuildValue("(i,i,i,i)", center, table, varid, level_type);
@@ -1029,7 +1029,7 @@ static PyObject *gribcore_get_var_nt (PyObject *self, PyObject *args) {
   Index *index;
   int v, nt;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nt = get_var_nt (index, v);
   return Py_BuildValue("i", nt);
 }
@@ -1041,7 +1041,7 @@ static PyObject *gribcore_get_var_t (PyObject *self, PyObject *args) {
   npy_intp nt;
   PyArrayObject *y, *m, *d, *H, *M;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nt = get_var_nt (index, v);
   y = (PyArrayObject*)PyArray_SimpleNew(1,&nt,NPY_INT32);
   m = (PyArrayObject*)PyArray_SimpleNew(1,&nt,NPY_INT32);
@@ -1064,7 +1064,7 @@ static PyObject *gribcore_get_var_nz (PyObject *self, PyObject *args) {
   Index *index;
   int v, nz;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nz = get_var_nz (index, v);
   return Py_BuildValue("i", nz);
 }
@@ -1076,7 +1076,7 @@ static PyObject *gribcore_get_var_z (PyObject *self, PyObject *args) {
   npy_intp nz;
   PyArrayObject *l1, *l2;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nz = get_var_nz (index, v);
   l1 = (PyArrayObject*)PyArray_SimpleNew(1,&nz,NPY_INT32);
   l2 = (PyArrayObject*)PyArray_SimpleNew(1,&nz,NPY_INT32);
@@ -1093,7 +1093,7 @@ static PyObject *gribcore_get_var_neta (PyObject *self, PyObject *args) {
   Index *index;
   int v, neta;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   neta = get_var_neta (index, v);
   return Py_BuildValue("i", neta);
 }
@@ -1105,7 +1105,7 @@ static PyObject *gribcore_get_var_eta (PyObject *self, PyObject *args) {
   npy_intp neta;
   PyArrayObject *a, *b;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   neta = get_var_neta (index, v);
   a = (PyArrayObject*)PyArray_SimpleNew(1,&neta,NPY_FLOAT32);
   b = (PyArrayObject*)PyArray_SimpleNew(1,&neta,NPY_FLOAT32);
@@ -1122,7 +1122,7 @@ static PyObject *gribcore_get_grid (PyObject *self, PyObject *args) {
   Index *index;
   int v, type, ni, nj, la1, lo1, la2, lo2;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int ret = get_grid (index, v, &type, &ni, &nj, &la1, &lo1, &la2, &lo2);
   if (ret != 0) return NULL;
   return Py_BuildValue("(i,i,i,i,i,i,i)", type, ni, nj, la1, lo1, la2, lo2);
@@ -1132,7 +1132,7 @@ static PyObject *gribcore_get_nvars (PyObject *self, PyObject *args) {
   PyObject *index_obj;
   Index *index;
   if (!PyArg_ParseTuple(args, "O!", &PyCapsule_Type, &index_obj)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int nvars = get_nvars(index);
   return Py_BuildValue("i", nvars);
 }
@@ -1145,8 +1145,8 @@ static PyObject *gribcore_read_data_loop (PyObject *self, PyObject *args) {
   PyArrayObject *t, *z, *y, *x, *out;
   // Assuming the arrays are of the right type and contiguous
   if (!PyArg_ParseTuple(args, "O!O!iiO!iO!iO!iO!O!", &PyCapsule_Type, &f_obj, &PyCapsule_Type, &index_obj, &v, &nt, &PyArray_Type, &t, &nz, &PyArray_Type, &z, &ny, &PyArray_Type, &y, &nx, &PyArray_Type, &x, &PyArray_Type, &out)) return NULL;
-  f = (FILE*)PyCapsule_New(f_obj,NULL,NULL);
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  f = (FILE*)PyCapsule_GetPointer(f_obj,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
 
   int ret = read_data_loop (f, index, v, nt, (int*)t->data, 
     nz, (int*)z->data, ny, (int*)y->data, nx, (int*)x->data,
-- 
2.43.0


From f12b7b96d2d46298004bb48f5b314c2440288167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:37 +0000
Subject: [PATCH 52/52] fix: OPeNDAP routines take the length of a string as
 Py_ssize_t

---
 pygeode/formats/opendap.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygeode/formats/opendap.c b/pygeode/formats/opendap.c
index 1355761..fb28eac 100644
--- a/pygeode/formats/opendap.c
+++ b/pygeode/formats/opendap.c
@@ -1,3 +1,4 @@
+#define PY_SSIZE_T_CLEAN
 #include <Python.h>
 #include <numpy/arrayobject.h>
 #include <stdlib.h>
@@ -119,7 +120,7 @@ int float64toStr (double *f, char *str, int n) {
 
 static PyObject *opendapcore_str2int8 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
   if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
@@ -134,7 +135,7 @@ static PyObject *opendapcore_str2int8 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2int32 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
   if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
@@ -149,7 +150,7 @@ static PyObject *opendapcore_str2int32 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2int64 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
   if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
@@ -164,7 +165,7 @@ static PyObject *opendapcore_str2int64 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2float32 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
   if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
@@ -179,7 +180,7 @@ static PyObject *opendapcore_str2float32 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2float64 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
   if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
-- 
2.43.0

