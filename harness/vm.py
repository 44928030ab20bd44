"""VMEC-style inputs: arrays on the full radial grid of ns surfaces, wout files, and the mapping
to the library's radial grid written down independently of the code under test."""
import numpy as np
from hypothesis import strategies as st
import gen
import real

FULL = ["rmnc", "rmns", "zmnc", "zmns"]           # full grid
HALF = ["lmnc", "lmns"]
HALF_NYQ = ["bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"]
ORDER = ["rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"]
ASYM_ONLY = ["rmns", "zmnc", "lmnc", "bmns", "bsubumns", "bsubvmns"]
FLUX = ["phipf", "chi", "pres", "phi"]


@st.composite
def vmec(draw, max_ns=6, min_ns=2, max_m=3, max_n=2, asym=None, wide=True):
    """Recipe for a VMEC equilibrium with ns full-grid surfaces."""
    mtop, ntop = draw(st.integers(0, max_m)), draw(st.integers(0, max_n))
    mq, nq = draw(st.integers(0, max_m + 1)), draw(st.integers(0, max_n + 1))
    cfg = draw(gen.config(asym=asym, max_ns=max_ns, min_ns=min_ns, max_m=1, max_n=1, wide=False))
    w = draw(st.integers(0, 39)) if wide else 0
    if w == 1:
        cfg["ns"] = draw(st.one_of(st.integers(10, 130), st.integers(131, 520)))
    elif w == 2:
        mtop, mq = draw(st.integers(5, 30)), draw(st.integers(0, 32))
        ntop, nq = min(ntop, 1), min(nq, 1)
    elif w == 3:
        ntop, nq = draw(st.integers(4, 24)), draw(st.integers(0, 26))
        mtop, mq = min(mtop, 2), min(mq, 2)
    elif w == 5:
        cfg["ns"], mtop, ntop = draw(st.integers(30, 90)), draw(st.integers(4, 16)), draw(st.integers(0, 1))
    cfg["modes"], cfg["modes_nyq"] = gen.canonical(mtop, ntop), gen.canonical(mq, nq)
    # mpol of a wout file is one more than the largest m; init_from_vmec accepts any
    cfg["extra"] = [draw(st.sampled_from([1, 1, 1, 0, 3])), 1, 1, 1]
    cfg["table"] = draw(st.sampled_from(["canonical", "canonical", "canonical", "shuffled", "sparse", "repeated"]))
    cfg["extreme"] = draw(st.sampled_from([0, 0, 0, 1]))
    cfg["spread"] = draw(st.sampled_from([0, 0, 0, 4, 18]))
    if w == 4 and real.names(asym):
        # one of the equilibria that come with the repository
        cfg["wout"] = draw(st.sampled_from(real.names(asym)))
        v = real.load(cfg["wout"])
        cfg["asym"], cfg["nfp"], cfg["ns"] = v["asym"], v["nfp"], v["ns"]
        cfg["modes"], cfg["modes_nyq"] = real.tables(v)
        cfg["table"], cfg["extreme"], cfg["spread"] = "canonical", 0, 0
    return cfg


def build(cfg):
    """-> dict: scalars, tables, 12 arrays (number of modes, ns) under VMEC's names, iotas, flux arrays."""
    if cfg.get("wout"):
        v = real.load(cfg["wout"])
        if (cfg["asym"], cfg["ns"]) == (v["asym"], v["ns"]):
            return {k: x.copy() if isinstance(x, np.ndarray) else x for k, x in v.items()}
    cfg = dict(cfg)
    for key, tag in (("modes", "p"), ("modes_nyq", "q")):
        t = cfg[key]
        if len(t) > 2 and cfg.get("table") != "canonical":
            mid = t[1:-1]
            u = gen.bulk(cfg["seed"], "tab" + tag, (2, len(mid)))
            order = np.argsort(u[0])
            if cfg["table"] == "sparse":
                order = [i for i in order if u[1, i] > -0.3]
            if cfg["table"] == "repeated":
                order = [i for i in order for _ in range(2 if u[1, i] > 0.3 else 1)]
            cfg[key] = [t[0]] + [mid[i] for i in order] + [t[-1]]
    a = gen.materialize(cfg)
    ns = a.pop("ns_in")
    a.pop("s_in")
    a["ns"] = ns
    a["iotas"] = a.pop("iota")
    m = a["xm"]
    s = np.arange(ns) / (ns - 1.0)
    seed = cfg["seed"]
    for k in FULL:
        if k in a:
            v = a[k].copy()
            # plausible radial dependence, so that odd modes vanish on the axis
            v = v * np.where((m % 2 == 1)[:, None], np.sqrt(s)[None, :], 1.0)
            v[m % 2 == 1, 0] = 0.0
            a[k] = v
    for k in HALF + HALF_NYQ:
        if k in a:
            v = a[k].copy()
            v[:, 0] = 0.0 if not cfg["extreme"] else gen.bulk(seed, "first" + k, (len(v),)) * 1e3
            a[k] = v
    a["iotas"] = a["iotas"].copy()
    a["iotas"][0] = 0.0
    if cfg.get("spread"):       # amplitudes over many orders of magnitude, as in converged equilibria
        for k in ORDER:
            if k in a and len(a[k]) > 1:
                a[k][1:] *= 10.0 ** (cfg["spread"] * 0.5 * (gen.bulk(seed, "spread" + k, (len(a[k]) - 1, 1)) - 1))
    a["phi"] = np.linspace(0, 1, ns) * 7.3 * (gen.bulk(seed, "phi", (1,))[0] + 0.01)
    a["phipf"] = gen.bulk(seed, "phipf", (ns,)) * 3 + 5
    a["chi"] = gen.bulk(seed, "chi", (ns,)) * 2
    a["pres"] = np.abs(gen.bulk(seed, "pres", (ns,))) * 1e5
    u = np.round(3 * gen.bulk(seed, "units", (4,)))         # from laboratory plasmas to reactors, in any units
    for k, x in zip(("phi", "phipf", "chi", "pres"), u):
        a[k] = a[k] * 10.0 ** x
    u = gen.bulk(seed, "aspect", (2,))
    a["aspect"] = 1 + 10 * abs(u[0]) if u[1] > -0.6 else u[0] * 1.5      # any number is to be carried
    return a


def half(v, flux):
    """The documented result of loading v: expected input attributes."""
    ns = v["ns"]
    e = {k: v[k] for k in ("asym", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq",
                           "xm", "xn", "xm_nyq", "xn_nyq")}
    e["ns_in"] = ns - 1
    sf = np.arange(ns) / (ns - 1.0)
    sh = (np.arange(ns - 1) + 0.5) / (ns - 1.0)
    e["s_in"] = sh
    e["iota"] = v["iotas"][1:]
    odd = v["xm"] % 2 == 1
    for k in ORDER:
        if k in ASYM_ONLY and not v["asym"]:
            continue
        x = v[k]
        if k not in FULL:
            e[k] = x[:, 1:]
            continue
        out = 0.5 * (x[:, :-1] + x[:, 1:])
        rs = np.sqrt(np.where(sf > 0, sf, 1.0))
        y = x / rs                                   # amplitude / sqrt(s)
        y = np.where((v["xm"] == 1)[:, None] & (sf == 0)[None, :],
                     (2 * y[:, 1] - y[:, min(2, ns - 1)])[:, None], y)
        o = 0.5 * (y[:, :-1] + y[:, 1:]) * np.sqrt(sh)
        e[k] = np.where(odd[:, None], o, out)
    e["compute_surfs"] = np.arange(ns - 1)
    e["mboz"] = 6 * v["mpol"]
    e["nboz"] = max(2 * v["ntor"] - 1, 0)
    if flux:
        e["phip"] = -v["phipf"] / (2 * np.pi)
        e["chi"], e["pres"], e["phi"] = v["chi"], v["pres"], v["phi"]
        e["toroidal_flux"] = v["phi"][-1]
    else:
        for k in ("phip", "chi", "pres", "phi"):
            e[k] = np.zeros(0)
        e["toroidal_flux"] = 0.0
    return e


KWNAME = dict([(k, k + "0") for k in ORDER] + [("phipf", "phips")])
SET = ["asym", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "xm", "xn", "xm_nyq", "xn_nyq"]


def call(b, v, flux=False, over=None, set_attrs=True, absent="empty", kw=None):
    """init_from_vmec on object b. `over` replaces arguments; `kw`: number of arguments given by position, the rest by name."""
    if set_attrs:
        for k in SET:
            setattr(b, k, v[k])
    args = []
    for k in ORDER:
        if k in v:
            args.append(v[k])
        else:
            args.append(np.zeros((0, 0)))
    full = [v["ns"], v["iotas"]] + args
    names = ["ns", "iotas"] + ORDER
    if flux:
        full += [v[k] for k in FLUX]
        names += FLUX
    for k, x in (over or {}).items():
        full[names.index(k)] = x
    if kw is None:
        b.init_from_vmec(*full)
    else:
        rest = [(KWNAME.get(n, n), x) for n, x in zip(names, full)][kw:]
        b.init_from_vmec(*full[:kw], **dict(rest[::-1] if v["nfp"] % 2 else rest))
    return b


def write_wout(path, v, version=1, extra=True, int_tables=False, drop=(), resize=None, lasym=None, scalars=None):
    """An independent writer of the parts of a wout file the library uses."""
    from scipy.io import netcdf_file
    resize = resize or {}
    f = netcdf_file(path, "w", version=version, mmap=False)
    dims = {"radius": v["ns"], "mn_mode": v["mnmax"], "mn_mode_nyq": v["mnmax_nyq"]}
    for d, k in dims.items():
        f.createDimension(d, k)
    f.createDimension("dim_00020", 20)
    odd = {}

    def dim(length, want):
        if length == dims.get(want):
            return want
        if length not in odd:
            odd[length] = "odd_%d" % length
            f.createDimension(odd[length], length)
        return odd[length]

    def scalar(name, val, t):
        if name in drop:
            return
        x = f.createVariable(name, t, ())
        x.data[...] = (scalars or {}).get(name, val)

    def arr(name, val, t, dd):
        if name in drop:
            return
        val = resize[name](val) if name in resize else val
        dd = [dim(L, d) for L, d in zip(val.shape, dd)] if val.ndim == len(dd) else [dim(L, None) for L in val.shape]
        x = f.createVariable(name, t, tuple(dd))
        x[:] = val
    if extra:
        arr("mgrid_mode", np.frombuffer(b"N                   ", dtype="S1"), "c", ["dim_00020"])
        arr("raxis_cc", np.arange(3.0), "d", [None])
    for name, val in (("lasym__logical__", int(v["asym"]) if lasym is None else lasym), ("ns", v["ns"]), ("nfp", v["nfp"]),
                      ("mpol", v["mpol"]), ("ntor", v["ntor"]), ("mnmax", v["mnmax"]), ("mnmax_nyq", v["mnmax_nyq"])):
        scalar(name, val, "i")
    scalar("aspect", v["aspect"], "d")
    t = "i" if int_tables else "d"
    for name, d in (("xm", "mn_mode"), ("xn", "mn_mode"), ("xm_nyq", "mn_mode_nyq"), ("xn_nyq", "mn_mode_nyq")):
        arr(name, np.asarray(v[name], dtype=t if t == "i" else float), t, [d])
    for name in ["iotas"] + FLUX:
        if name in v:
            arr(name, v[name], "d", ["radius"])
    for name in ORDER:
        if name in v:
            arr(name, np.ascontiguousarray(v[name].T), "d", ["radius", "mn_mode" if name in FULL + HALF else "mn_mode_nyq"])
    if extra:
        scalar("wb", 1.25, "d")
        # what else VMEC writes, under names that resemble those of the variables to be read
        for j, name in enumerate(["presf", "iotaf", "phips", "phipvec", "chipf", "vp", "mass", "buco", "bvco", "q_factor", "jcuru", "specw"]):
            arr(name, np.arange(float(v["ns"])) + j, "d", ["radius"])
        for j, name in enumerate(["bsupumnc", "bsupvmnc", "gmnc", "bsubsmns", "currumnc"]):
            arr(name, np.full((v["ns"], v["mnmax_nyq"]), 0.5 + j), "d", ["radius", "mn_mode_nyq"])
        for j, name in enumerate(["lmnf", "rmn", "lmns_full"]):
            arr(name, np.full((v["ns"], v["mnmax"]), 0.25 + j), "d", ["radius", "mn_mode"])
        for j, name in enumerate(["signgs", "ntmax", "mpol1", "nextcur", "lfreeb__logical__", "ier_flag"]):
            scalar(name, 17 + j, "i")
        for j, name in enumerate(["Rmajor_p", "Aminor_p", "betatotal", "b0", "volavgB", "ctor"]):
            scalar(name, 2.5 + j, "d")
    f.close()


def tags(cfg):
    t = ["repository equilibrium"] * bool(cfg.get("wout")) + ["asym" if cfg["asym"] else "sym", "ns=%s" % (cfg["ns"] if cfg["ns"] < 5 else ">4")]
    if cfg["table"] != "canonical":
        t.append(cfg["table"])
    return t
