"""Writes data/api.json: the operations users call, by name, as confirmed on the pinned tree.

Run once; the checks intersect the list with the current tree, so functions that a later change introduces
as helpers are analysed through their callers only."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pgsa import runner as R
e = R.engine()
INTERNAL = {
  'pygeode.climat.loopover', 'pygeode.dataset.axis_name_clumping', 'pygeode.dataset.dataset_method', 'pygeode.var.do_wrapper', 'pygeode.var.wrap_static', 'pygeode.var.copy_meta', 'pygeode.var.combine_meta',
  'pygeode.eof.apply_weights', 'pygeode.eof.finalize', 'pygeode.eof.prep', 'pygeode.eof.remove_weights', 'pygeode.eof.whichout',
  'pygeode.formats.netcdf.makedim', 'pygeode.formats.netcdf.put_attributes', 'pygeode.formats.netcdf.dims2axes', 'pygeode.formats.netcdf.override_values', 'pygeode.formats.netcdf.get_attributes', 'pygeode.formats.netcdf.load_values',
  'pygeode.formats.hdf4.get_attributes', 'pygeode.formats.hdf4.get_dim_info', 'pygeode.formats.hdf4.load_values',
  'pygeode.formats.netcdf4.dims2axes', 'pygeode.formats.netcdf4.make_atts', 'pygeode.formats.netcdf4.make_dataset', 'pygeode.formats.netcdf4.make_dim', 'pygeode.formats.netcdf4.make_var', 'pygeode.formats.netcdf4.override_values', 'pygeode.formats.netcdf4.tidy_axes', 'pygeode.formats.netcdf4.write_var',
  'pygeode.formats.opendap.get_data_trap_io', 'pygeode.formats.opendap.kill', 'pygeode.formats.opendap.load_array', 'pygeode.formats.opendap.parse_array', 'pygeode.formats.opendap.parse_attributes', 'pygeode.formats.opendap.parse_dataset', 'pygeode.formats.opendap.parse_grid', 'pygeode.formats.opendap.print_dataset', 'pygeode.formats.opendap.readurl', 'pygeode.formats.opendap.write_xdr',
  'pygeode.formats.multifile.check_multi', 'pygeode.formats.multifile.expand_file_list', 'pygeode.formats.cfmeta.decode_string_var', 'pygeode.formats.cfmeta.encode_string_var', 'pygeode.formats.cfmeta.fix_char', 'pygeode.formats.cfmeta.fix_name',
  'pygeode.readConfig', 'pygeode.ensemble.make_ensemble', 'pygeode.ufunc.wrap_unary', 'pygeode.ufunc.wrap_binary', 'pygeode.ufunc.wrap_npfunc', 'pygeode.ufunc.chain', 'pygeode.timeaxis.makeSeasonalAxis', 'pygeode.progress.as_pbar', 'pygeode.formats.grib.open',
  'pygeode.tools.load_lib', 'pygeode.libhelper.load_lib', 'pygeode.libhelper.find_library', 'pygeode.libhelper.get_library_paths', 'pygeode.libhelper.load_lib', 'pygeode.axis.gausslat',
}
KEEP = {'pygeode.tools.whichaxis', 'pygeode.tools.combine_axes', 'pygeode.tools.common_dict', 'pygeode.tools.can_map', 'pygeode.tools.map_to', 'pygeode.tools.common_map', 'pygeode.tools.shared_axes', 'pygeode.tools.common_dtype'}
def public(n):
  last = n.rstrip('()').split('.')[-1]
  if n in INTERNAL: return False
  if last.startswith('_') and not last.startswith('__') and last not in ('_getitem_asvar',): return False
  if n.startswith('pygeode.tools.') and n not in KEEP and '()' not in n: return False
  if '.NCDim.' in n or '_DataVar.construct' in n: return False
  return True
INTERNALCLS = {'pygeode.formats.data_scanner._DataVar()', 'pygeode.formats.grib.GribVar()', 'pygeode.formats.hdf4.HDF4_Var()', 'pygeode.formats.multifile.Multifile_Var()', 'pygeode.formats.netcdf.NCDim()', 'pygeode.formats.netcdf.NCVar()', 'pygeode.formats.netcdf4.NCDim()', 'pygeode.formats.netcdf4.NCVar()', 'pygeode.formats.opendap.OpenDAP_Var()', 'pygeode.ufunc.wrap_npfunc.C()'}
INTERNAL |= INTERNALCLS
d = dict(functions=sorted({r.name for r in R.function_roots(e) if public(r.name)}), methods=sorted({r.name for r in R.method_roots(e) if public(r.name)}), attached=sorted({r.name for r in R.attached_roots(e)}), classes=sorted({r.name for r in R.class_roots(e) if public(r.name)}))
json.dump(d, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'api.json'), 'w'), indent=0)
print({k: len(v) for k, v in d.items()})
