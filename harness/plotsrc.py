"""Objects and files for the plotting checks."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
import vm


@st.composite
def source(draw):
    kind = draw(st.sampled_from(["run", "direct", "runfile", "file", "file"]))
    c = {"src": kind, "mboz": draw(st.integers(1, 6)), "nboz": draw(st.integers(0, 4))}
    if kind == "file":
        c.update(asym=draw(st.booleans()), nfp=draw(st.integers(1, 6)), ns=draw(st.integers(2, 9)), seed=draw(st.integers(0, 2**32 - 1)),
                 spread=draw(st.sampled_from([0, 0, 3, 12])), zeros=draw(st.booleans()), ties=draw(st.booleans()))
        c["jlist"] = draw(st.lists(st.integers(2, c["ns"]), min_size=1, max_size=c["ns"] + 1))
        if draw(st.booleans()):
            c["jlist"].sort()
        c["asname"] = draw(st.booleans())
    elif kind == "direct":
        c["cfg"] = draw(gen.config(max_ns=4, max_m=3, max_n=2, wide=False))
        c["surfs"] = draw(gen.surfaces(c["cfg"]["ns"]))
    else:
        c["cfg"] = draw(vm.vmec(max_ns=5, max_m=3, max_n=2, wide=False))
        c["surfs"] = draw(gen.surfaces(c["cfg"]["ns"] - 1))
    if kind != "file":          # wireplot raises its surface by a fixed 0.002, which is lost next to a radius of 1e14
        c["cfg"]["R0"] = min(c["cfg"]["R0"], 1e6)
    return c


def write_random(path, c):
    """A boozmn file with the canonical mode table and random spectra."""
    from scipy.io import netcdf_file
    xm, xn = ref.modes_b(c["mboz"], c["nboz"], c["nfp"])
    mn, n, nsb, seed = len(xm), c["ns"], len(c["jlist"]), c["seed"]
    f = netcdf_file(path, "w", version=1, mmap=False)
    for d, k in (("radius", n), ("mn_modes", mn), ("mn_mode", mn), ("comput_surfs", nsb), ("pack_rad", nsb)):
        f.createDimension(d, k)

    def put(name, t, dd, val):
        f.createVariable(name, t, dd).data[...] = val
    for k, v in (("lasym__logical__", int(c["asym"])), ("ns_b", n), ("nfp_b", c["nfp"]), ("mboz_b", c["mboz"]), ("nboz_b", c["nboz"]), ("mnboz_b", mn)):
        put(k, "i", (), v)
    put("aspect_b", "d", (), 4.0)
    put("jlist", "i", ("comput_surfs",), c["jlist"])
    put("ixm_b", "i", ("mn_modes",), xm)
    put("ixn_b", "i", ("mn_modes",), xn)
    for k in ("iota_b", "buco_b", "bvco_b", "phip_b", "pres_b", "phi_b", "chi_b"):
        put(k, "d", ("radius",), gen.bulk(seed, k, (n,)))
    for k in ["bmnc_b", "rmnc_b", "zmns_b", "pmns_b", "gmn_b"] + (["bmns_b", "rmns_b", "zmnc_b", "pmnc_b", "gmns_b"] if c["asym"] else []):
        v = gen.bulk(seed, k, (nsb, mn)) * 10.0 ** (-c["spread"] * np.abs(gen.bulk(seed, k + "e", (nsb, mn))))
        if k == "bmnc_b" and c["zeros"]:
            v = np.where(gen.bulk(seed, "z", (1, mn)) > 0.5, 0.0, v)
        if k == "bmnc_b" and c["ties"]:
            v = np.round(v * 3) / 3
        if k[0] == "p":
            v = v * 0.3
        if k == "rmnc_b":
            v[:, 0] += 3
        put(k, "d", ("pack_rad", "mn_modes"), v)
    f.close()


def make(case, ctx):
    """-> (argument for the plotting function, object with the same contents, input available?)"""
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    p = ctx.path("boozmn_plot.nc")
    if case["src"] == "file":
        write_random(p, case)
        b.read_boozmn(p)
        return (p if case["asname"] else b), b
    if case["src"] == "direct":
        for k, v in gen.materialize(case["cfg"]).items():
            setattr(b, k, v)
    else:
        vm.call(b, vm.build(case["cfg"]))
    b.mboz, b.nboz, b.compute_surfs = case["mboz"], case["nboz"], case["surfs"]
    b.run()
    if case["src"] == "runfile":
        b.write_boozmn(p)
        b = ctx.bx.Booz_xform()
        b.verbose = 0
        b.read_boozmn(p)
        return p, b
    return b, b


def tags(case, b):
    return [case["src"], "asym" if b.asym else "sym", "surfaces %s" % ("1" if b.ns_b == 1 else ">1")]
