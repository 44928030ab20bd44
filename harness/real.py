"""The equilibria that come with the repository (tests/test_files), as a further source of inputs.
They are read with scipy, not with the code under test."""
import functools
import glob
import os
import numpy as np
import build

ORDER = ["rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"]


def path(name):
    return os.path.join(build.REPO, "tests", "test_files", name)


@functools.lru_cache(None)
def load(name):
    """The arrays of one wout file in the form of vm.build."""
    from scipy.io import netcdf_file
    f = netcdf_file(path(name), mmap=False)
    g = lambda k: np.array(f.variables[k].data)
    v = {"asym": bool(g("lasym__logical__")), "ns": int(g("ns")), "nfp": int(g("nfp")), "mpol": int(g("mpol")), "ntor": int(g("ntor")),
         "mnmax": int(g("mnmax")), "mnmax_nyq": int(g("mnmax_nyq")), "aspect": float(g("aspect"))}
    for k in ("xm", "xn", "xm_nyq", "xn_nyq"):
        v[k] = g(k).astype(np.int32)
    v["mpol_nyq"], v["ntor_nyq"] = int(v["xm_nyq"].max()), int(abs(v["xn_nyq"]).max()) // v["nfp"]
    for k in ORDER:
        if k in f.variables:
            v[k] = np.ascontiguousarray(g(k).T.astype(float))
    for k, n in (("iotas", "iotas"), ("phipf", "phipf"), ("chi", "chi"), ("pres", "pres"), ("phi", "phi")):
        v[k] = g(n).astype(float)
    f.close()
    return v


@functools.lru_cache(None)
def names(asym=None):
    """Names of the usable files."""
    out = []
    for p in sorted(glob.glob(os.path.join(build.REPO, "tests", "test_files", "wout_*.nc"))):
        try:
            v = load(os.path.basename(p))
        except Exception:
            continue
        if asym is None or v["asym"] == asym:
            out.append(os.path.basename(p))
    return tuple(out)


def tables(v):
    return ([[int(m), int(n) // v["nfp"]] for m, n in zip(v["xm"], v["xn"])],
            [[int(m), int(n) // v["nfp"]] for m, n in zip(v["xm_nyq"], v["xn_nyq"])])
