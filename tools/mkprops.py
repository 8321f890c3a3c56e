"""Writes /verif/properties.jsonl.  The list below is the single source of the property texts."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=qtext), why_tests_cant=why,
           anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
  if observe: d['anchors']['observe_at'] = observe
  assert len(title) <= 80, (id, len(title))
  P.append(d)

prop('C01', 'Reading a variable leaves no trace',
 "Reading values from a variable changes nothing that outlives the read: not the variable, nor any variable or axis it is "
 "built from, nor class-level or module-level state, nor the description of the requested region. The values obtained for a region therefore never "
 "depend on which other regions or variables were read earlier.",
 ['histories', 'inputs'],
 "Every sequence of reads, of any regions, of any variables produced by any chain of operations.",
 "The tests read each variable once or twice in a fixed order and compare with a reference; a cache or counter left behind by one read shows only for some later read they do not make.",
 ['pygeode/var.py', 'pygeode/view.py', 'pygeode/reduce.py', 'pygeode/varoperations.py', 'pygeode/climat.py', 'pygeode/interp.py', 'pygeode/formats/netcdf.py'],
 [('getview / getvalues methods of the Var subclasses', 'every module defining a Var subclass'), ('View.get', 'pygeode/view.py'), ('memoising helpers (gausslat, makedim)', 'pygeode/axis.py, pygeode/formats/*.py')])

prop('C02', 'Operations never change what they are given',
 "No operation on variables, axes or datasets, and no save, changes the contents of the objects it is given: the values, "
 "attributes, names and axes of input variables, axes and datasets, and the caller's own arrays, lists and dictionaries, "
 "are the same after the call as before it.",
 ['programs', 'inputs'],
 "Every public operation, every option, every argument the caller keeps a reference to.",
 "The tests look at the returned object and almost never look at the inputs again after the call.",
 ['pygeode/var.py', 'pygeode/axis.py', 'pygeode/timeaxis.py', 'pygeode/dataset.py', 'pygeode/varoperations.py', 'pygeode/formats/netcdf.py', 'pygeode/formats/cfmeta.py'],
 [('Var.__init__, Axis.__init__ copy their metadata arguments', 'pygeode/var.py, pygeode/axis.py'), ('read-only flag on stored arrays', 'pygeode/var.py')])

prop('C03', 'Separate objects never share mutable metadata',
 "The attribute and plotting dictionaries of a newly made variable, axis or dataset are its own: editing them does not alter the object it was derived "
 "from, the dictionary the caller passed in, a class-wide default, or any other variable, axis or dataset.",
 ['programs', 'histories'],
 "Every way of creating a variable, axis or dataset, followed by any edit of its metadata.",
 "The tests check the metadata of single objects; none edits one object's metadata and then looks at a sibling or at the class defaults.",
 ['pygeode/var.py', 'pygeode/axis.py', 'pygeode/dataset.py', 'pygeode/__init__.py'],
 [('Var.__init__ / copy_meta / combine_meta', 'pygeode/var.py'), ('Axis.__init__, Axis.rename', 'pygeode/axis.py'), ('_readaxisconfig', 'pygeode/__init__.py')])

prop('C04', 'Operations keep the metadata they document keeping',
 "An operation that only selects, reorders, reshapes, reduces, smooths or interpolates a variable returns one with the same name, "
 "units, attributes and plotting attributes as its input unless the caller explicitly overrides them. (The units of a variance, a count, a trend or an index are "
 "not those of the input, and a climatology adds the suffix naming its period and statistic to the name.)",
 ['inputs', 'programs'],
 "Every unary operation that keeps metadata today, for every input name, unit and attribute dictionary and every option.",
 "The numeric comparisons of the tests ignore metadata except in a few hand-written cases.",
 ['pygeode/var.py', 'pygeode/varoperations.py', 'pygeode/reduce.py', 'pygeode/interp.py', 'pygeode/smooth.py', 'pygeode/climat.py'],
 [('copy_meta', 'pygeode/var.py'), ('constructors of the Var subclasses', 'pygeode/*.py')])

prop('C05', 'Building a derived variable reads no data',
 "Applying an arithmetic operation, mathematical function, selection, reshaping, reduction, climatology, smoothing, derivative, integral or interpolation to a "
 "variable, and grouping or transforming variables in datasets, only describes the result; no values of the input variables are read until values of the result are asked for.",
 ['programs', 'configurations'],
 "Every lazy operation, every option, every input size.",
 "The tests use small in-memory arrays for which eager evaluation gives the same numbers.",
 ['pygeode/var.py', 'pygeode/varoperations.py', 'pygeode/reduce.py', 'pygeode/ufunc.py', 'pygeode/climat.py', 'pygeode/interp.py', 'pygeode/smooth.py', 'pygeode/dataset.py'],
 [('constructors of the Var subclasses and the functions that return them', 'pygeode/*.py')])

prop('C06', 'Reductions combine every chunk of the input',
 "A reduction (minimum, maximum, sum, mean, variance, standard deviation, index of extremum, climatology, regression or other statistic, EOF or SVD) accounts for every chunk the input is "
 "read in: what one chunk contributes is combined with what the earlier ones did, starting from a neutral value, and is not replaced by the last chunk.",
 ['inputs', 'configurations'],
 "Every input larger than one memory chunk along the reduced axes, every memory limit.",
 "Test inputs fit in a single chunk, so the loop over chunks runs once.",
 ['pygeode/reduce.py', 'pygeode/climat.py', 'pygeode/stats.py', 'pygeode/eof.py', 'pygeode/svd.py'],
 [('accumulation loops over loopover / loop_mem', 'pygeode/reduce.py, pygeode/stats.py, pygeode/climat.py')])

prop('C07', 'NaN-aware reductions skip NaNs everywhere, plain ones nowhere',
 "The NaN-aware form of every reduction ignores missing values in every step - within a chunk, when combining chunks, and in the counts and weights it divides by - "
 "while the plain form propagates them; both forms otherwise compute the same thing.",
 ['inputs'],
 "Every placement of missing values, including whole chunks, with and without weights.",
 "Tests place few NaNs in small arrays read in one chunk; the combining step between chunks and the counts are not separately visible.",
 ['pygeode/reduce.py', 'pygeode/tools.py', 'pygeode/climat.py', 'pygeode/stats.py'],
 [('npsum/npnansum and relatives', 'pygeode/tools.py'), ('NAN* reduction classes', 'pygeode/reduce.py')])

prop('C08', 'Operators and math functions compute what their names say',
 "Every arithmetic and comparison operator and every named mathematical function on variables computes the numpy operation of the same name on the values, with the operands in "
 "the written order (including reflected operators with a number on the left), and the degree variants convert between degrees and radians on the right side.",
 ['inputs', 'programs'],
 "Every operator and named function, every pairing of variable and number.",
 "Only a handful of the more than fifty operators and functions are exercised, mostly with operands for which swapping is not visible.",
 ['pygeode/var.py', 'pygeode/ufunc.py'],
 [('wrap_unary, wrap_binary, chain', 'pygeode/ufunc.py'), ('operator table', 'pygeode/var.py')])

prop('C09', 'Dataset operations act on every variable and keep the dataset',
 "Every method of a dataset lifted from variables (mathematical functions, reductions, climatologies, selections, renaming, loading, map) applies the variable operation of the same name, with the caller's arguments, exactly once to "
 "every variable, and holds the results in the variables' order with the dataset's own attributes; a selection leaves variables that lack the axis alone. Adding, removing, renaming, replacing and joining touch the variables "
 "concerned and keep the others in order, and axes that differ are never merged into one.",
 ['inputs', 'programs'],
 "Every lifted method and arithmetic operator, every dataset of any number of variables.",
 "Tests lift a few methods over one or two variables.",
 ['pygeode/dataset.py', 'pygeode/var.py'],
 [('dataset_method / unary hooks on Dataset', 'pygeode/dataset.py')])

prop('C10', 'Metadata encoding and decoding use the same conventions',
 "What saving writes to describe axes, units, reference times, calendars, fill values and scaling is what opening recognises: every axis class, calendar and time unit the encoder can emit is mapped by the decoder "
 "back to the class, calendar and unit it came from.",
 ['inputs', 'configurations'],
 "Every axis class, calendar and time unit.",
 "Round-trip tests cover the common axes and one calendar.",
 ['pygeode/formats/cfmeta.py', 'pygeode/formats/multifile.py', 'pygeode/timeaxis.py'],
 [('encode_cf / decode_cf tables', 'pygeode/formats/cfmeta.py')])

prop('C11', 'File data types map consistently in both directions',
 "Every data type the library can write to a file has an external type code, the code stands for a type that holds its values (the same kind and width where the format has one), and reading that code gives that type back; the tables used for reading, writing and attributes agree.",
 ['inputs', 'configurations'],
 "Every numpy data type and external type code in the netCDF, HDF4 and OPeNDAP interfaces.",
 "Tests write float64 and a few others.",
 ['pygeode/formats/netcdf.py', 'pygeode/formats/hdf4.py', 'pygeode/formats/opendap.py'],
 [('nc_type, numpy_type tables', 'pygeode/formats/netcdf.py')])

prop('C12', 'No failure reported by a file library is ignored',
 "Whenever a routine of the netCDF or HDF4 library called by the readers and writers reports failure (a non-zero netCDF code of either sign, -1 from HDF4), the operation in progress does not return normally: it stops with an exception. No failure to open, define, read, write attributes or values, or close is dropped, so a save that returns normally has had every library call succeed.",
 ['fault_sequences', 'inputs'],
 "Every library call and every failure it can report (full disk, bad file, missing permission).",
 "No test makes the library fail.",
 ['pygeode/formats/netcdf.py', 'pygeode/formats/hdf4.py'],
 [('ret = lib.nc_*; assert/raise on ret', 'pygeode/formats/netcdf.py')])

prop('C13', 'Files opened for an operation are closed on every way out',
 "A file, handle or socket that an operation opens for itself is closed when the operation ends, whether it returns or raises; a reader or writer that stays open belongs to the object returned.",
 ['fault_sequences', 'histories'],
 "Every exit, including an exception between opening and closing.",
 "Leaked handles show only after many operations or failures.",
 ['pygeode/formats/netcdf.py', 'pygeode/formats/netcdf4.py', 'pygeode/formats/__init__.py', 'pygeode/formats/mpeg.py', 'pygeode/formats/hdf4.py'],
 [('context managers and close calls', 'pygeode/formats/*.py')])

prop('C14', 'Native routines leave references, buffers and errors balanced',
 "Every native routine, on every way out including its failure paths, releases the references and buffers it acquired exactly once, and returns failure if and only if an exception is set.",
 ['inputs', 'fault_sequences'],
 "Every path through every extension function: wrong types, wrong shapes, failed conversions, allocation failures.",
 "Tests call the routines with valid arguments only, and a leaked reference or buffer does not fail a test.",
 ['pygeode/interp.c', 'pygeode/timeaxis.c', 'pygeode/tools.c', 'pygeode/eof.c', 'pygeode/svd.c', 'pygeode/quadrulepy.c', 'pygeode/formats/opendap.c', 'pygeode/formats/grib.c'],
 [('Py_DECREF / free / return NULL on each exit', 'the C sources')])

prop('C15', 'Callers and native routines agree on arguments and array layout',
 "Every call from Python into a native routine passes the number and kinds of arguments the routine unpacks, and every array reaches the native loops as a contiguous array of the element type those loops assume, whatever type or layout the user's array has.",
 ['inputs', 'programs'],
 "Every call site of every native routine; every user array type and memory layout.",
 "Tests use contiguous arrays of the usual types on the call sites they reach.",
 ['pygeode/tools.py', 'pygeode/timeaxis.py', 'pygeode/interp.py', 'pygeode/eof.py', 'pygeode/svd.py', 'pygeode/libhelper.py'],
 [('PyArg_ParseTuple formats', 'pygeode/*.c'), ('np.ascontiguousarray / dtype conversions at the call sites', 'pygeode/*.py')])

prop('C16', 'Each calendar converts with its own rules',
 "Every time axis class converts dates to values and values to dates with the native routines of its own calendar, both directions use the same routine pair, reference date and units, and no class inherits another calendar's conversion.",
 ['inputs', 'programs'],
 "Every calendar class, every date, unit and reference date.",
 "Tests check some dates in some calendars; mixing two calendars is invisible for most dates.",
 ['pygeode/timeaxis.py', 'pygeode/timeaxis.c'],
 [('_val_as_date / _date_as_val of the calendar classes', 'pygeode/timeaxis.py')])

prop('C17', 'Derived axes keep their class and their companion data',
 "An axis obtained by selecting, reordering, renaming, merging or restricting another keeps the class, name, units, attributes and plotting attributes of the original, and every auxiliary array or attribute that travels with it (weights, calendar units, reference date and the like), selected in step with the values.",
 ['inputs', 'programs'],
 "Every axis class, every way of deriving one axis from another.",
 "Tests check values of derived axes and seldom the companions.",
 ['pygeode/axis.py', 'pygeode/timeaxis.py'],
 [('Axis._getitem_asvar, rename, withnewvalues, concat, args/auxarrays/auxatts', 'pygeode/axis.py')])

prop('C18', 'Leaving out an optional argument works',
 "An argument documented as optional may be left out of any public operation: the operation then uses its default and never fails because the value is absent.",
 ['inputs', 'programs'],
 "Every public function and every subset of its optional arguments.",
 "Tests call most functions with one fixed set of arguments.",
 ['pygeode/stats.py', 'pygeode/eof.py', 'pygeode/timeutils.py', 'pygeode/varoperations.py', 'pygeode/tools.py', 'pygeode/formats/*.py'],
 [('"if x is None" defaulting', 'throughout')])

prop('C19', 'Every accepted option has an effect',
 "Every argument a public operation accepts reaches its result or its effects: none is accepted and silently ignored on the way through wrappers and helper functions.",
 ['inputs', 'programs'],
 "Every public operation and each of its parameters.",
 "Tests pass few options and compare with the default outcome rarely.",
 ['pygeode/stats.py', 'pygeode/interp.py', 'pygeode/reduce.py', 'pygeode/formats/__init__.py', 'pygeode/formats/netcdf.py', 'pygeode/timeutils.py'],
 [('parameters passed on from public wrappers to implementations', 'throughout')])

prop('C20', 'Results are a function of the inputs only',
 "For the same inputs and files, every operation gives the same result in every run and process: nothing depends on random numbers, the clock, hash or set iteration order, directory listing order or object addresses.",
 ['schedules', 'histories', 'configurations'],
 "Every process, hash seed, file-system listing order.",
 "Tests run under one hash seed and file system.",
 ['pygeode/tools.py', 'pygeode/axis.py', 'pygeode/dataset.py', 'pygeode/formats/multifile.py', 'pygeode/formats/data_scanner.py', 'pygeode/svd.py', 'pygeode/eof.py'],
 [('ordered lists instead of sets; sorted file lists', 'throughout')])

prop('C21', 'Failures surface as the intended exception',
 "When an operation cannot proceed, the user sees the exception its code raises, with its message: no path ends instead in an accidental error from an undefined name, a message that cannot be formatted, or an internal call with wrong arguments.",
 ['inputs', 'programs'],
 "Every path, in particular the error paths.",
 "Error paths are hardly tested, and Python checks none of this until the line runs.",
 ['pygeode'],
 [('raise / assert statements and internal calls', 'throughout')])

prop('C22', 'Errors are never silently swallowed',
 "An unexpected error inside the library reaches the caller; wherever an exception is caught and not raised again, only the specific exception foreseen at that place is caught.",
 ['fault_sequences', 'inputs'],
 "Every exception that can occur under each handler.",
 "Tests do not inject failures under the handlers.",
 ['pygeode'],
 [('except clauses', 'throughout')])

prop('C23', 'Multi-dimensional selections index one axis each',
 "Whenever the library selects from or writes into an n-dimensional array with one selector per axis, the selectors are applied axis by axis, for any number of axes: irregular selections along several axes are crossed, never matched up point by point, and a collection of selectors is never taken for indices of the first axis alone.",
 ['inputs'],
 "Every number of axes, every position of the axis concerned.",
 "A selector list happens to work for some shapes or fails only in paths tests do not reach.",
 ['pygeode/timeutils.py', 'pygeode/fft_smooth.py', 'pygeode/s_trans2.py', 'pygeode/tools.py', 'pygeode/stats.py'],
 [('tuple(...) around selector lists', 'throughout')])

prop('C24', 'Progress reporting never changes a result',
 "Asking for a progress display, or not, never changes the values obtained, and nested reads report to the display they were given.",
 ['configurations', 'inputs'],
 "Every operation, with and without a progress bar.",
 "Tests read without a progress bar.",
 ['pygeode/progress.py', 'pygeode/view.py', 'pygeode/reduce.py', 'pygeode/tools.py'],
 [('pbar parameters', 'throughout'), ('FakePBar mirrors PBar', 'pygeode/progress.py')])

prop('C25', 'Reading a region reads no more inputs than that region needs',
 "Reading a region of a derived variable reads its inputs only through the requested region, mapped to the input, possibly widened along the axes the operation itself works on; it never loads whole input variables along other axes.",
 ['inputs', 'configurations'],
 "Every lazy operation, every region of every variable.",
 "For small arrays the numbers are the same.",
 ['pygeode/view.py', 'pygeode/varoperations.py', 'pygeode/reduce.py', 'pygeode/ufunc.py', 'pygeode/smooth.py'],
 [('view.get / view.map_to / view.modify_slice / unslice', 'pygeode/view.py')])

prop('C26', 'Axes are equal only if everything about them agrees',
 "Two axes compare equal only if they are of matching class, have the same length and values, and agree in every auxiliary array and attribute that gives those values meaning; the comparison is the same whichever is asked.",
 ['inputs'],
 "Every pair of axes of every class.",
 "Tests compare a few equal and clearly different axes.",
 ['pygeode/axis.py', 'pygeode/timeaxis.py'],
 [('Axis.__eq__, TimeAxis.__eq__, isparentof', 'pygeode/axis.py, pygeode/timeaxis.py')])

prop('C27', 'Saving writes every variable, axis, attribute and chunk',
 "A save that returns normally has written every variable and axis of the dataset, all their attributes that the file format can hold, the dataset's own attributes, and every part of each variable's data.",
 ['inputs'],
 "Every dataset: any number of variables, axes and attributes of any supported type, data of any size.",
 "Tests save small datasets with few attributes and read one variable back.",
 ['pygeode/formats/netcdf.py', 'pygeode/formats/netcdf4.py', 'pygeode/formats/cfmeta.py', 'pygeode/formats/hdf4.py'],
 [('save loops over variables, axes, attributes and chunks', 'pygeode/formats/netcdf.py, pygeode/formats/netcdf4.py')])

# ---- not claimed: decided by runtime values
N = [
 ('N01', 'Reading a region equals reading everything and selecting', 'For every variable and region, the values read for the region equal the same part of the values of the whole variable, however the region is specified or reached.', ['inputs','programs'], ['pygeode/view.py','pygeode/varoperations.py'], 'Tests compare some slices of some operations.'),
 ('N02', 'Calendar arithmetic round-trips', 'Converting a date to a value and back gives the same date, for every date, unit and reference date of every calendar.', ['inputs'], ['pygeode/timeaxis.c','pygeode/timeaxis.py'], 'Tests convert selected dates.'),
 ('N03', 'Saved data reads back equal', 'Saving a dataset and opening the file gives a dataset with equal values, axes and attributes.', ['inputs'], ['pygeode/formats/netcdf.py'], 'Tests save small samples.'),
 ('N04', 'Interpolation, derivatives and integrals are numerically right', 'Interpolated, differentiated, integrated and smoothed values agree with their mathematical definitions to working precision.', ['inputs'], ['pygeode/interp.c','pygeode/deriv.py','pygeode/intgr.py'], 'Tests use selected functions.'),
 ('N05', 'Statistics, EOFs and SVDs are numerically right', 'Statistical, EOF and SVD outputs agree with their definitions to working precision.', ['inputs'], ['pygeode/stats.py','pygeode/eof.py','pygeode/svd.py'], 'Tests use few samples.'),
 ('N06', 'Files of a multi-file dataset are stitched in the right order', 'The values of a multi-file variable at any time are those in the file holding that time.', ['inputs'], ['pygeode/formats/multifile.py','pygeode/formats/data_scanner.py'], 'Tests use two or three files.'),
 ('N07', 'A read never exceeds the memory limit by more than a chunk', 'Chunked operations hold no more than the configured amount of data at a time.', ['inputs','configurations'], ['pygeode/view.py'], 'Not measured by tests.'),
 ('N08', 'Plots show the data they are given', 'Plotting functions draw the values and coordinates of the variable passed in.', ['inputs'], ['pygeode/plot/wrappers.py'], 'Tests check only that plots do not raise.'),
 ('N09', 'Malformed GRIB or OPeNDAP input never crashes the process', 'Opening any bytes as GRIB or OPeNDAP data either succeeds or raises an exception.', ['inputs'], ['pygeode/formats/grib.c','pygeode/formats/opendap.c'], 'Tests use no malformed files.'),
]
for id, t, s, over, files, why in N:
  prop(id, t, s, over, 'Every input.', why, files, [('implementation', f) for f in files])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
