"""Copies a classic netCDF file into another format (netCDF-4, CDF-5, ...) through libnetcdf's C interface."""
import ctypes
import ctypes.util
import numpy as np

FORMATS = {"CDF-1": 0, "CDF-2": 0x0200, "CDF-5": 0x0020, "netCDF-4": 0x1000, "netCDF-4 classic": 0x1100}
_lib = [None]


class NcError(Exception):
    pass


def lib():
    if _lib[0] is None:
        for name in ("libnetcdf.so.19", "libnetcdf.so", ctypes.util.find_library("netcdf")):
            try:
                _lib[0] = ctypes.CDLL(name)
                break
            except (OSError, TypeError):
                continue
        else:
            raise NcError("no libnetcdf")
    return _lib[0]


def convert(src, dst, fmt, chunk=False):
    """All dimensions, variables and data (no attributes). chunk: compressed, chunked storage (netCDF-4 only)."""
    from scipy.io import netcdf_file
    L = lib()

    def ok(rc, what):
        if rc:
            raise NcError("%s: %d" % (what, rc))
    try:
        f = netcdf_file(src, mmap=False)
    except TypeError as e:          # a record dimension (length 0) that is not the first one
        raise NcError("scipy cannot read the file: %s" % e)
    nc = ctypes.c_int()
    ok(L.nc_create(dst.encode(), FORMATS[fmt], ctypes.byref(nc)), "nc_create")
    try:
        dims = {}
        for d, n in f.dimensions.items():
            i = ctypes.c_int()
            ok(L.nc_def_dim(nc, d.encode(), ctypes.c_size_t(n or 0), ctypes.byref(i)), "nc_def_dim " + d)
            dims[d] = i.value
        ids = []
        for name, v in f.variables.items():
            i = ctypes.c_int()
            dd = (ctypes.c_int * max(1, len(v.dimensions)))(*[dims[d] for d in v.dimensions])
            t = {"d": 6, "f": 5, "i": 4, "c": 2, "h": 3, "b": 1}[v.typecode()]
            ok(L.nc_def_var(nc, name.encode(), t, len(v.dimensions), dd, ctypes.byref(i)), "nc_def_var " + name)
            if chunk and fmt == "netCDF-4" and v.dimensions and t != 2:
                L.nc_def_var_deflate(nc, i, 1, 1, 2)
            ids.append((i.value, v))
        ok(L.nc_enddef(nc), "nc_enddef")
        for i, v in ids:
            x = np.ascontiguousarray(v.data)
            x = np.ascontiguousarray(x.astype(x.dtype.newbyteorder("="))) if x.dtype.kind != "S" else x
            if x.size:
                start, count = (ctypes.c_size_t * (x.ndim + 1))(), (ctypes.c_size_t * (x.ndim + 1))(*x.shape)
                ok(L.nc_put_vara(nc, i, start, count, x.ctypes.data_as(ctypes.c_void_p)), "nc_put_vara")
    finally:
        rc = L.nc_close(nc)
        f.close()
    ok(rc, "nc_close")
