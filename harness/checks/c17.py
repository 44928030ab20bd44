"""C17: the boozmn format, as seen by and as produced by an independent netCDF implementation."""
import os
import numpy as np
from hypothesis import strategies as st
import gen
import vm
from bx import check, close, value_same, describe, SYM_OUT, ASYM_OUT, quiet_fd
from checks import c16

ID = "C17"
BUDGET = {"quick": 5000, "thorough": 80000}
RULE = ("write: random equilibrium, run and written, then every dimension and variable read with scipy.io.netcdf_file and compared "
        "with the object's data; read: boozmn files with random contents written by scipy (CDF-1/CDF-2, with or without chi_b, "
        "different dimension and variable order, extra variables, integer types, Fortran-style jlist) and loaded with read_boozmn. "
        "Non-trivial: mnboz > 1")


SPECIAL = [float("nan"), float("inf"), -float("inf"), 5e-324, 1.7976931348623157e308, -0.0, 0.0, 9.9692099683868690e+36]


@st.composite
def _s(draw):
    if draw(st.booleans()):
        c = draw(c16._s())
        c["kind"] = "write"
        return c
    return draw(_read())


@st.composite
def _read(draw):
    mnboz = draw(st.integers(1, 12))
    ns = draw(st.integers(2, 9))
    w = draw(st.integers(0, 39))
    if w == 17:
        mnboz = draw(st.integers(100, 3000))
    elif w == 19:
        ns = draw(st.integers(20, 300))
    return {"kind": "read", "mnboz": mnboz, "ns": ns, "asym": draw(st.booleans()), "nfp": draw(st.integers(1, 12)),
            "mboz": draw(st.integers(1, 40)), "nboz": draw(st.integers(0, 40)),
            "jlist": draw(st.lists(st.integers(2, ns), min_size=1, max_size=ns + 1)), "seed": draw(st.integers(0, 2**32 - 1)),
            "version": draw(st.sampled_from([1, 2])), "chi": draw(st.booleans()), "extra": draw(st.booleans()),
            "order": draw(st.integers(0, 2**16)), "used": draw(st.booleans()), "missing_opt": draw(st.booleans()),
            "lasym": draw(st.sampled_from([1, 1, -1])), "special": draw(st.booleans())}


def strategy(tier):
    return _s()


def check_written(case, ctx):
    from scipy.io import netcdf_file
    b = c16.make(ctx.bx, case)
    b.mboz, b.nboz, b.compute_surfs, b.aspect = case["mboz"], case["nboz"], case["surfs"], case["aspect"]
    b.run()
    p = ctx.path("w.nc")
    flux = {k: np.array(getattr(b, k)) for k in ("phi", "chi", "phip", "pres")}
    b.write_boozmn(p)
    raw = open(p, "rb").read(4)
    check(raw == b"CDF\x01", "not a netCDF file in the classic format: %r", raw)
    f = netcdf_file(p, mmap=False)
    n = b.ns_in + 1
    dims = {"radius": n, "mn_mode": b.mnboz, "mn_modes": b.mnboz, "comput_surfs": b.ns_b, "pack_rad": b.ns_b}
    for d, k in dims.items():
        check(f.dimensions.get(d) == k, "dimension %s is %s, expected %d", d, f.dimensions.get(d), k)
    v = f.variables

    def get(name, dd):
        check(name in v, "variable %s is missing", name)
        check(v[name].dimensions == dd, "variable %s has dimensions %s, expected %s", name, v[name].dimensions, dd)
        return np.array(v[name].data)
    for name, want, t in (("lasym__logical__", int(b.asym), "i"), ("ns_b", n, "i"), ("nfp_b", b.nfp, "i"), ("mboz_b", b.mboz, "i"),
                          ("nboz_b", b.nboz, "i"), ("mnboz_b", b.mnboz, "i"), ("aspect_b", b.aspect, "f"), ("rmax_b", 0, "f"),
                          ("rmin_b", 0, "f"), ("betaxis_b", 0, "f")):
        x = get(name, ())
        check(x.dtype.kind == t and x.dtype.itemsize == (4 if t == "i" else 8), "variable %s has type %s", name, x.dtype)
        check(float(x) == float(want), "variable %s is %r, expected %r", name, x, want)
    check("version" in v and v["version"].data.dtype.kind == "S", "no version text")
    pre = lambda x: np.concatenate([[0.0], x])
    z = np.zeros(n)
    if case["flux"]:
        phip = flux["phip"].copy()
        phip[0] = 0
    prof = {"iota_b": pre(b.iota), "buco_b": pre(b.Boozer_I_all), "bvco_b": pre(b.Boozer_G_all), "beta_b": z,
            "phip_b": phip if case["flux"] else z, "chi_b": flux["chi"] if case["flux"] else z,
            "pres_b": flux["pres"] if case["flux"] else z, "phi_b": flux["phi"] if case["flux"] else z}
    for name, want in prof.items():
        x = get(name, ("radius",))
        check(value_same(x, want), "variable %s: %s", name, describe(x, want))
    check(np.array_equal(get("jlist", ("comput_surfs",)), np.array(case["surfs"]) + 2), "jlist is %s for surfaces %s", v["jlist"].data, case["surfs"])
    check(np.array_equal(get("ixm_b", ("mn_modes",)), b.xm_b), "ixm_b")
    check(np.array_equal(get("ixn_b", ("mn_modes",)), b.xn_b), "ixn_b")
    names = {"bmnc_b": b.bmnc_b, "rmnc_b": b.rmnc_b, "zmns_b": b.zmns_b, "pmns_b": -b.numns_b, "gmn_b": b.gmnc_b}
    asy = {"bmns_b": b.bmns_b, "rmns_b": b.rmns_b, "zmnc_b": b.zmnc_b, "pmnc_b": -b.numnc_b, "gmns_b": b.gmns_b}
    if b.asym:
        names.update(asy)
    else:
        for k in asy:
            check(k not in v, "%s is present in the file of a symmetric configuration", k)
    unit = {"b": b"Tesla", "r": b"meter", "z": b"meter", "p": b"dimensionless", "g": b"meter/Tesla"}
    for k in names:         # what the file says about itself
        att = v[k]._attributes
        cos = k.startswith(("bmnc", "rmnc", "zmnc", "pmnc", "gmn_"))
        text = att.get("description", b"")
        check((b"cos(" in text) == cos and (b"sin(" in text) == (not cos), "variable %s is described as %r", k, text)
        check(att.get("units") == unit[k[0]], "variable %s has units %r", k, att.get("units"))
    for k, want in names.items():
        x = get(k, ("pack_rad", "mn_modes"))
        check(value_same(x, want.T), "variable %s: %s", k, describe(x, want.T))
    f.close()
    os.unlink(p)
    return {"nontrivial": b.mnboz > 1, "tags": ["write"] + vm.tags(case["cfg"]) + ["flux" if case["flux"] else "no flux"]}


def check_read(case, ctx):
    from scipy.io import netcdf_file
    n, mn, ns_b, seed = case["ns"], case["mnboz"], len(case["jlist"]), case["seed"]
    p = ctx.path("r.nc")
    f = netcdf_file(p, "w", version=case["version"], mmap=False)
    u = gen.bulk(case["order"], "o", (64,))
    dims = [("radius", n), ("mn_mode", mn), ("mn_modes", mn), ("comput_surfs", ns_b), ("pack_rad", ns_b), ("dim_00038", 38)]
    dims = [dims[i] for i in np.argsort(u[:len(dims)])]
    for d, k in dims:
        f.createDimension(d, k)
    xm = (np.abs(gen.bulk(seed, "xm", (mn,))) * 20).astype(int)
    xn = (gen.bulk(seed, "xn", (mn,)) * 9).astype(int) * case["nfp"]
    def B(tag, shape):
        x = gen.bulk(seed, tag, shape) * 3
        if case["special"] and np.size(x) > 1:
            k = np.abs(gen.bulk(seed, "special" + tag, (3,)))
            x.flat[int(k[0] * x.size)] = SPECIAL[int(k[1] * len(SPECIAL))]
        return x
    data = {"lasym__logical__": ("i", (), case["lasym"] if case["asym"] else 0), "ns_b": ("i", (), n), "nfp_b": ("i", (), case["nfp"]),
            "mboz_b": ("i", (), case["mboz"]), "nboz_b": ("i", (), case["nboz"]), "mnboz_b": ("i", (), mn),
            "aspect_b": ("d", (), B("aspect", ()).item()), "jlist": ("i", ("comput_surfs",), np.array(case["jlist"])),
            "ixm_b": ("i", ("mn_mode",), xm), "ixn_b": ("i", ("mn_mode",), xn)}
    for k in ("iota_b", "buco_b", "bvco_b", "phip_b", "pres_b", "phi_b", "beta_b"):
        data[k] = ("d", ("radius",), B(k, (n,)))
    if case["chi"]:
        data["chi_b"] = ("d", ("radius",), B("chi_b", (n,)))
    spec = ["bmnc_b", "rmnc_b", "zmns_b", "pmns_b", "gmn_b"] + (["bmns_b", "rmns_b", "zmnc_b", "pmnc_b", "gmns_b"] if case["asym"] else [])
    for k in spec:
        data[k] = ("d", ("pack_rad", "mn_modes" if case["order"] % 2 else "mn_mode"), B(k, (ns_b, mn)))
    if not case["missing_opt"]:
        for k in ("rmax_b", "rmin_b", "betaxis_b"):
            data[k] = ("d", (), 1.5)
    else:
        data.pop("beta_b")
    if case["extra"]:
        data["zz_other"] = ("d", ("radius",), B("zz", (n,)))
    keys = list(data)
    for i in np.argsort(gen.bulk(case["order"], "k", (len(keys),))):
        k = keys[i]
        t, dd, val = data[k]
        x = f.createVariable(k, t, dd)
        x.data[...] = val
    f.close()
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    if case["used"]:
        cfg = {"asym": not case["asym"], "nfp": 3, "ns": 4, "modes": gen.canonical(1, 1), "modes_nyq": gen.canonical(1, 1),
               "extra": [1, 1, 1, 1], "seed": 5, "R0": 1.0, "B0": 1.0, "G": 1.0, "I": 0.1, "iota": 0.4, "r": 0.2, "lam": 0.2, "w": 0.2,
               "b": 0.2, "decay": 1.0, "consistent": True, "table": "canonical", "extreme": 0}
        vm.call(b, vm.build(cfg), True)
        b.mboz, b.nboz = 4, 2
        b.run()
    out = ctx.path("stdout.txt")
    with quiet_fd(out):
        b.read_boozmn(p)
    text = open(out).read()
    check(text == "", "read_boozmn printed with verbose=0: %r", text[:300])
    D = lambda k: np.array(data[k][2], dtype=float)
    S = np.array(case["jlist"]) - 2
    want = {"asym": case["asym"], "nfp": case["nfp"], "mboz": case["mboz"], "nboz": case["nboz"], "mnboz": mn, "ns_in": n - 1, "ns_b": ns_b,
            "aspect": data["aspect_b"][2], "xm_b": xm, "xn_b": xn, "compute_surfs": S, "iota": D("iota_b")[1:],
            "Boozer_I_all": D("buco_b")[1:], "Boozer_G_all": D("bvco_b")[1:], "Boozer_I": D("buco_b")[1:][S], "Boozer_G": D("bvco_b")[1:][S],
            "phip": D("phip_b"), "pres": D("pres_b"), "phi": D("phi_b"), "chi": D("chi_b") if case["chi"] else np.zeros(n),
            "bmnc_b": D("bmnc_b").T, "rmnc_b": D("rmnc_b").T, "zmns_b": D("zmns_b").T, "numns_b": -D("pmns_b").T, "gmnc_b": D("gmn_b").T}
    for k, src in (("bmns_b", "bmns_b"), ("rmns_b", "rmns_b"), ("zmnc_b", "zmnc_b"), ("numnc_b", "pmnc_b"), ("gmns_b", "gmns_b")):
        want[k] = np.zeros((0, 0))
        if case["asym"]:
            want[k] = D(src).T * (-1 if src[0] == "p" else 1)
    for k, w in want.items():
        g = getattr(b, k)
        if isinstance(w, np.ndarray):
            check(value_same(g, w), "%s after read_boozmn: %s", k, describe(g, w))
        else:
            check(g == w, "%s is %r, expected %r", k, g, w)
    close(b.s_b, (S + 0.5) / (n - 1), 1e-14, "s_b")
    os.unlink(p)
    return {"nontrivial": mn > 1, "tags": ["read", "asym" if case["asym"] else "sym", "chi_b" if case["chi"] else "no chi_b",
                                           "CDF-%d" % case["version"]]}


def run(case, ctx):
    return check_written(case, ctx) if case["kind"] == "write" else check_read(case, ctx)
