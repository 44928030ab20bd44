"""Helpers around the package under test."""
import os
import numpy as np

SCALARS = ["asym", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "ns_in",
           "aspect", "toroidal_flux", "mboz", "nboz"]
NONNYQ = ["rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns"]
NYQ = ["bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"]
SYM_IN = ["rmnc", "zmns", "lmns", "bmnc", "bsubumnc", "bsubvmnc"]
ASYM_IN = ["rmns", "zmnc", "lmnc", "bmns", "bsubumns", "bsubvmns"]
VECTORS = ["xm", "xn", "xm_nyq", "xn_nyq", "s_in", "iota", "compute_surfs", "phi", "phip", "chi", "pres"]
INPUTS = SCALARS + VECTORS + NONNYQ + NYQ
SYM_OUT = ["bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b"]
ASYM_OUT = ["bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"]
OUT_MISC = ["ns_b", "s_b", "mnboz", "xm_b", "xn_b", "Boozer_G", "Boozer_G_all", "Boozer_I", "Boozer_I_all"]
OUTPUTS = OUT_MISC + SYM_OUT + ASYM_OUT
ALL = INPUTS + OUTPUTS


class Violation(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def snap(b, names):
    """Copies of attributes (never views)."""
    out = {}
    for k in names:
        v = getattr(b, k)
        out[k] = np.array(v, copy=True) if isinstance(v, np.ndarray) else v
    return out


def same(x, y):
    """Bitwise equality, NaN equal to itself."""
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        return x.dtype == y.dtype and x.tobytes(order="C") == y.tobytes(order="C")
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True
    return x == y


def value_same(x, y):
    """Equality by value (0.0 == -0.0, NaN equal to itself)."""
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f"))


def diff(s1, s2, names=None, eq=same):
    return [k for k in (names or s1) if not eq(s1[k], s2[k])]


def describe(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return "shapes %s and %s" % (x.shape, y.shape)
    if x.size == 0:
        return "empty"
    if x.dtype.kind in "ifb" and y.dtype.kind in "ifb":
        with np.errstate(all="ignore"):
            d = np.abs(x.astype(float) - y.astype(float))
        d = np.where(np.isnan(d), np.inf, d)
        k = np.unravel_index(np.argmax(d), d.shape) if d.shape else ()
        return "at %s: %r vs %r" % (tuple(int(i) for i in k), x[k].item(), y[k].item())
    return "%r vs %r" % (x, y)


def set_attrs(b, a, skip=()):
    for k, v in a.items():
        if k not in skip:
            setattr(b, k, v)


def loaded(bx, a, mboz, nboz, surfs, **kw):
    """A fresh object with directly assigned inputs."""
    b = bx.Booz_xform()
    b.verbose = 0
    set_attrs(b, a)
    b.mboz, b.nboz = mboz, nboz
    b.compute_surfs = surfs
    for k, v in kw.items():
        setattr(b, k, v)
    return b


def ran(bx, a, mboz, nboz, surfs, **kw):
    b = loaded(bx, a, mboz, nboz, surfs, **kw)
    b.run()
    return b


def close(x, y, tol, what):
    """|x-y| <= tol elementwise (tol scalar or broadcastable); NaN never passes."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    check(x.shape == y.shape, "%s: shapes %s and %s", what, x.shape, y.shape)
    with np.errstate(all="ignore"):
        d = np.abs(x - y)
        bad = ~(d <= tol)
    if bad.any():
        k = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d) * bad), d.shape) if d.shape else ()
        t = np.broadcast_to(tol, d.shape)[k]
        raise Violation("%s differs at %s: got %.17g expected %.17g (tolerance %.2g)"
                        % (what, tuple(int(i) for i in k), x[k], y[k], t))


class quiet_fd:
    """Silence (or capture) C-level stdout."""

    def __init__(self, path=os.devnull):
        self.path = path

    def __enter__(self):
        import sys
        sys.stdout.flush()
        self.saved = os.dup(1)
        fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 1)
        os.close(fd)
        return self

    def __exit__(self, *exc):
        import sys
        sys.stdout.flush()
        try:
            import ctypes
            ctypes.CDLL(None).fflush(None)
        except Exception:
            pass
        os.dup2(self.saved, 1)
        os.close(self.saved)
        return False
