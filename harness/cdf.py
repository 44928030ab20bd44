"""The classic netCDF file structure (CDF-1, CDF-2), read directly."""
import struct
import numpy as np

SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 8}


class Header:
    """dims: [(name, length)], vars: [dict(name, dims, type, vsize, begin)], end: header size,
    fields: [(offset, width, what)] of every number in the header, names: [(offset, length, what)]"""

    def __init__(self, data):
        self.d, self.p = data, 4
        assert data[:3] == b"CDF" and data[3] in (1, 2)
        self.version = data[3]
        self.fields, self.names = [], []
        self.num("numrecs")
        self.dims = []
        if self.tag("dim_list"):
            for _ in range(self.count):
                n = self.name("dim")
                self.dims.append((n, self.num("dimlen " + n)))
        self.atts("global")
        self.vars = []
        if self.tag("var_list"):
            for _ in range(self.count):
                v = {"name": self.name("var")}
                v["ndims"] = self.num("ndims " + v["name"])
                v["dims"] = [self.num("dimid " + v["name"]) for _ in range(v["ndims"])]
                self.atts(v["name"])
                v["type"] = self.num("type " + v["name"])
                v["vsize"] = self.num("vsize " + v["name"])
                v["begin"] = self.num("begin " + v["name"], 8 if self.version == 2 else 4)
                self.vars.append(v)
        self.end = self.p

    def num(self, what, width=4):
        if self.p + width > len(self.d):
            raise ValueError("the header is cut")
        self.fields.append((self.p, width, what))
        v = int.from_bytes(self.d[self.p:self.p + width], "big")
        self.p += width
        return v

    def tag(self, what):
        t = self.num("tag " + what)
        self.count = self.num("count " + what)
        return t

    def name(self, what):
        n = self.num("namelen " + what)
        s = self.d[self.p:self.p + n]
        self.names.append((self.p, n, what))
        self.p += (n + 3) // 4 * 4
        return s.decode("latin1")

    def atts(self, of):
        t = self.tag("atts " + of)
        c = self.count
        if not t:
            return
        for _ in range(c):
            self.name("att of " + of)
            ty = self.num("atttype " + of)
            k = self.num("attlen " + of)
            self.p += (k * SIZE.get(ty, 1) + 3) // 4 * 4


def rewrite(src, dst, drop=(), change=None, dropdim=(), types=None):
    """Copy a classic file with scipy, leaving out or changing variables.
    change: {name: function(array) -> array of any shape}, types: {name: type code}"""
    from scipy.io import netcdf_file
    change, types = change or {}, types or {}
    f = netcdf_file(src, mmap=False)
    g = netcdf_file(dst, "w", mmap=False)
    for d, n in f.dimensions.items():
        if d not in dropdim:
            g.createDimension(d, n)
    extra = 0
    for name, v in f.variables.items():
        if name in drop:
            continue
        x = np.array(v.data)
        dd = list(v.dimensions)
        t = types.get(name, v.typecode())
        if name in change:
            y = np.asarray(change[name](x))
        else:
            y = x
        if t == "c" and x.dtype.kind != "S":
            y = np.zeros(y.shape, dtype="S1")
        if y.shape != x.shape or any(d in dropdim for d in dd):
            old = dict(zip(dd, x.shape)) if y.ndim == len(dd) else {}
            names = []
            for i, n in enumerate(y.shape):
                if y.ndim == len(dd) and n == x.shape[i] and dd[i] not in dropdim:
                    names.append(dd[i])
                else:
                    g.createDimension("xtra_%d" % extra, n)
                    names.append("xtra_%d" % extra)
                    extra += 1
            dd = names
        w = g.createVariable(name, t, tuple(dd))
        w.data[...] = y
    f.close()
    g.close()
