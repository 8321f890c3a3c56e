#!/usr/bin/env python3
"""Write MANIFEST.json from the claims below; unclaimed properties get their reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = 'abstract interpretation of the Python source (points-to, effects, dependence labels, value terms) with a repository-specific rule'
CLAIMS = {
 'C01': (ENGINE + ': effect analysis of every reader',
   'Every variable class is constructed and read symbolically; any store during the read into an object that existed before it is reported. Assumes the summaries of reads, axis mapping and comparison listed in pgsa/cuts.py (each analysed as an entry point of its own) and the numpy model; code reached through an unmodelled library call is assumed not to store into package objects.'),
 'C02': (ENGINE + ': mutation of objects reachable from arguments',
   'Every public operation is executed symbolically with symbolic arguments; any store into an object that entered through the arguments is reported. Operations whose analysis stops at the step budget are listed in the evidence.'),
 'C03': (ENGINE + ': ownership of metadata dictionaries',
   'The dictionaries held by every object each public operation makes and returns must be freshly made by it; stores into class-wide dictionaries are reported. Assumes the numpy/stdlib model.'),
 'C04': ('abstract interpretation of client programs: a variable with known metadata through every metadata-keeping operation; metadata fields of the result compared',
   'Each of some 120 operation/option combinations, on a variable in memory and on one that is not. Every object the operation may return is looked at; entries the analysis cannot determine are not alarms. Operations combining several variables are followed on pieces of one variable only.'),
 'C05': ('abstract interpretation of client programs: every operation describing a variable applied to a variable with a reader; reads reached while the result is built are reported',
   'Some 250 operation/option combinations, with further variables (coordinates, weights, starting values) not in memory either. Reductions to a number return values and are not judged. Statistics, EOF/SVD and detrend, which compute at once by design, are not included.'),
 'C19': (ENGINE + ': dependence of results and effects on each argument (labels), one option at a time',
   'Every public operation and parameter; decides that an accepted argument reaches the result, values, older objects or the outside at all (values where documented to govern them), not that it does so correctly.'),
 'C18': (ENGINE + ': uses of an exact None and calls failing in every execution, with optional arguments left out',
   'Every public operation with optional arguments: all left out, and each None-default left out while the others are given (some 600 calls). Reports a None used where it cannot be, and calls that return with all arguments but fail in every execution without one. Constructors of classes that need one of several arguments are judged by the first rule only.'),
 'C16': ('symbolic client probes followed to the native calls by abstract interpretation, plus the clang syntax tree of timeaxis.c (method table, argument order, linear forms of the second counts, year lengths, month tables)',
   'Every concrete time axis class, both directions, every unit and every field of the reference date. Decides which native routine is used and what reaches it, and the constants of the C routines; not the calendar arithmetic itself (N02).'),
 'C09': ('symbolic client programs over a three-variable dataset, the lifted variable operation replaced by a recording summary; variables, order, arguments and attributes of the result compared',
   'Every method of Dataset lifted from variables (found from the class after import-time hooks have been interpreted) and every operation defined on datasets. Decides results the analysis follows exactly; datasets with three variables stand for any number.'),
 'C12': ('abstract interpretation of every netCDF and HDF4 entry point with one library routine at a time made to report failure; no normally returning final state may carry that failure',
   'Every call of a library routine reached from opening, reading attributes, dimensions, variables and values, and saving in every mode; failure codes of both signs and every code the module singles out. Loops over library objects are taken to run at least once; asserts are taken to be enabled.'),
 'C17': ('symbolic client probes deriving axes from axes, with the origin (dependence labels) and constants of every piece of metadata compared',
   'Every axis class, 16 ways of deriving an axis (selection by slice, value, index or list, sorting, renaming, concatenation with itself and with others, replaced values, restriction of dates, and the same through a variable). Decides presence and origin of metadata and that auxiliary arrays follow the same selection; not the values selected.'),
 'C23': ('abstract interpretation of every public operation and reader with the kinds of every array subscript examined (list holding slices; several index arrays in one subscript), and of View.get over irregular selections of two to five axes',
   'Every array subscript reached. Lists of selectors are found everywhere; index arrays used together are found where they are the selections of the region being read, not when computed in other ways.'),
 'C26': ('symbolic client probes comparing two axes that differ in one facet, followed through the package by abstract interpretation with numpy comparisons answered by an oracle for that facet',
   'Every axis class, every facet (class, length, values, auxiliary arrays and attributes and their presence, identifying names), both orders, ==, !=, alleq and is_equivalent. Reports only comparisons the analysis decides completely.'),
 'C20': (ENGINE + ': dependence of results on run-dependent sources; order-exposure analysis on the syntax tree of every iteration over a set or directory listing, typed by the interpretation',
   'Every public operation and reader. Reports values computed from the clock, unseeded generators or the process; orders of sets and listings that are certain to show in a result; sorting and persistent tables by address. Does not decide uninitialised memory or last-digit differences of summation order.'),
 'C21': (ENGINE + ': names, imports, attributes, formats and call shapes on every path; reaching definitions for unbound locals',
   'Every function of the package is checked for names, imported attributes and definitely unbound locals; formats and call shapes are checked where the abstract interpretation reaches them with symbolic arguments.'),
 'C22': ('effect rules over exception handlers of the syntax tree with the call graph of the guarded block',
   'Every except clause, finally block, suppress() and __exit__ of the package.'),
 'C10': ('abstract interpretation of client programs: every axis class, calendar, unit and reference date through encode_cf and decode_cf with exact names; class, unit, date, origin of values and auxiliary arrays compared',
   'Every axis class of the package (three layouts of auxiliary arrays where it has them), three or four reference dates in every unit, the unit strings and calendars of the convention, fill values and scaling of either sign and zero. Does not follow the file library in between (C11, C27) nor the calendar arithmetic (N02).'),
 'C11': ('abstract interpretation of the file interfaces with array types tracked (numpy type, byte order): every library call must agree in routine, type code and buffer type',
   'Every type code and array type of the netCDF (versions 3 and 4), HDF4 and OPeNDAP interfaces, for variables, axes and attributes. The netCDF4-python interface delegates its types to that library and is not examined.'),
 'C25': ('abstract interpretation of client programs: each operation on a lazy source, read through a view with a named index array per axis; labels of the view that arrives at the source compared axis by axis',
   'Some 230 operations and combinations on a four-dimensional source. Decides that the indices asked for reach the source along every axis the operation does not work on; not how much is read along its own axes.'),
 'C24': (ENGINE + ': dependence of results on the progress display, displays handed to nested reads; polynomial comparison of the shares of a display',
   'Every getview and every operation that takes a display. Does not decide that the position shown grows monotonically within one operation.'),
 'C06': ('abstract interpretation of every reduction over an input divided in two marked parts: provenance of each part through accumulators, starting values and results',
   'About 230 uses of reductions, climatologies and statistics, divided along each reduced and a kept axis. Loops of EOF and SVD, sizes of the parts and index arithmetic within a part are not followed.'),
 'C07': ('abstract interpretation of every reduction over marked parts with labels for missing values, their counts and their being skipped; native partial sums evaluated in the C syntax tree',
   'Every NaN-aware and plain reduction, climatology and joint statistic; takes numpy functions to treat missing values as their documentation says. EOF and SVD are not followed.'),
 'C15': ('abstract interpretation of array layout, element type and byte order along the Python functions that call native routines, against the argument formats and element types read off the clang syntax tree', 'every call site of every native routine: number and kinds of arguments against the format the routine unpacks, the format against the C variables it fills, conversions in C against the type the data is read as, and arrays passed on shown contiguous, native and of the type read, or known not to be; values the evaluation cannot settle are listed as undecided in the evidence; lengths and dimensions passed as numbers are not compared with the arrays'),
 'C13': ('typestate of opened files along all paths of every function that opens one, exceptional exits of every call included; interprocedural by walking package functions in place; FILE variables over the C syntax tree',
   'Every function of the package and its C sources that opens a file, handle or connection. Handles stored in objects that outlive the operation are taken to belong to them.'),
 'C27': ('abstract interpretation of client programs saving concrete datasets through every writer and option: library calls collected on every path and compared with the dataset; the parts a variable is read in enumerated and shown to tile it',
   'Thirteen or so combinations of writer, layout (plain, CF-coded axes, stations, groups) and options; each variable read in two marked parts. Takes the file library to store what it is given.'),
 'C08': (ENGINE + ': normal form of returned values against the named operation',
   'Each operator, method and function is applied to symbolic operands, and the normalised value term must equal that of the operation its name stands for. Decides the operation, operand order and unit conversion, not numpy itself.'),
}
PENDING = 'no check built for it yet in this framework'
NA = {
 'C14': 'CPython reference ownership across the macro-generated wrappers needs path- and alias-sensitive C analysis with a model of the numpy C API, which is not available here (no cpychecker); a syntactic count of DECREFs would raise false alarms on refactorings',
 'N01': 'quantifies over array values and index arithmetic of every region; whether two reads agree depends on runtime quantities no sound static argument in reach bounds (its structural parts are C01, C23 and C25)',
 'N02': 'arithmetic over calendar fields in C loops: a value-level property of unbounded integers and floats (its structural part is C16)',
 'N03': 'equality of values after a round trip through external file libraries (structural parts: C10, C11, C12, C27)',
 'N04': 'numerical accuracy of values', 'N05': 'numerical accuracy of values',
 'N06': 'depends on the contents and names of files at run time',
 'N07': 'depends on run-time sizes of arrays and the configured limit',
 'N08': 'rendering by matplotlib of run-time values; no static rule in reach decides what is drawn',
 'N09': 'memory safety of the C parsers on arbitrary bytes: needs value-range reasoning over buffer offsets beyond a sound, alarm-free static argument here',
}
def main():
  props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
  checks = []; na = []
  for p in props:
    i = p['id']
    if i in CLAIMS:
      t, note = CLAIMS[i]
      checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s' % i, technique=t, level='other', level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, PENDING)))
  m = dict(version=1, setup_cmd='python3-vt -m compileall -q pgsa check.py', checks=checks, not_applicable=na,
           notes='All checks are static: they read /repo/pygeode source on every run and execute none of it. See DESIGN.md.')
  with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
