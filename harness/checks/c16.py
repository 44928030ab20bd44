"""C16: write_boozmn / read_boozmn round trip."""
import os
import numpy as np
from hypothesis import strategies as st
import gen
import names
import vm
from bx import check, close, snap, same, describe, set_attrs, SYM_OUT, ASYM_OUT, value_same

ID = "C16"
BUDGET = {"quick": 5000, "thorough": 80000}
RULE = ("random VMEC equilibrium loaded (init_from_vmec, with or without flux data), any surface list and resolution, run, "
        "written, read into a fresh or used object, compared attribute by attribute (bitwise); the object that was read is "
        "written again and both files must have identical contents. Non-trivial: mnboz > 1")
RESTORED = ["asym", "nfp", "mboz", "nboz", "mnboz", "xm_b", "xn_b", "ns_in", "ns_b", "compute_surfs", "iota", "Boozer_G", "Boozer_I",
            "Boozer_G_all", "Boozer_I_all", "aspect"] + SYM_OUT + ASYM_OUT


POISON = ["rmnc", "zmns", "lmns", "bmnc", "bsubumnc", "bsubvmnc", "iota", "pres", "chi", "rmns", "bmns", "lmnc", "phi", "phip", "iota", "iota"]


@st.composite
def _s(draw):
    cfg = draw(vm.vmec(max_ns=7, max_m=3))
    res = draw(gen.resolution(6, 4))
    c = {"cfg": cfg, "mboz": res["mboz"], "nboz": res["nboz"], "flux": draw(st.booleans()),
         "surfs": draw(gen.surfaces(cfg["ns"] - 1)), "used": draw(st.sampled_from(["fresh", "fresh", "read", "ran", "loaded", "self"])),
         "aspect": draw(st.sampled_from([0.0, 3.5, -1e300, 1e-310])), "overwrite": draw(st.booleans()), "place": draw(names.KINDS)}
    if c["mboz"] * (2 * c["nboz"] + 1) > 120 and len(c["surfs"]) > 6:
        c["surfs"] = c["surfs"][:3] + c["surfs"][-3:]
    # now and then one input number is not finite, so that some outputs are not
    c["poison"] = draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(POISON), st.integers(0, 2**16),
                                                                 st.sampled_from(["nan", "inf", "-inf", "1e200", "1e-15", "-3e-17", "5e-324", "-0.0", "1e308"]))))
    # what a user may have assigned to the reading object
    c["dirty"] = draw(st.lists(st.sampled_from(["aspect", "toroidal_flux", "asym", "nfp", "mboz", "nboz", "ns_in", "compute_surfs", "iota", "s_in",
                                                "phi", "phip", "chi", "pres", "mpol", "rmnc", "bmns"]), unique=True, max_size=6))
    return c


def strategy(tier):
    return _s()


def make(bx, case, cfg=None, flux=None):
    cfg = cfg or case["cfg"]
    b = bx.Booz_xform()
    b.verbose = 0
    vm.call(b, vm.build(cfg), case["flux"] if flux is None else flux)
    if case.get("poison") and cfg is case["cfg"]:
        poison(b, *case["poison"])
    return b


def poison(b, name, where, value):
    x = np.array(getattr(b, name))
    if x.size:
        x.flat[where % x.size] = float(value)
        setattr(b, name, x)


def bytes_but_name(p):
    return open(p, "rb").read()


def run(case, ctx):
    with names.place(ctx, case.get("place"), "b1.nc") as p:
        return round_trip(case, ctx, p)


def round_trip(case, ctx, p):
    cfg = case["cfg"]
    b = make(ctx.bx, case)
    b.mboz, b.nboz, b.compute_surfs, b.aspect = case["mboz"], case["nboz"], case["surfs"], case["aspect"]
    b.run()
    q = ctx.path("b2.nc")
    if case["overwrite"]:
        open(p, "wb").write(b"x" * 100000)
    b.write_boozmn(p)
    want = snap(b, RESTORED)
    prof = {k: np.array(getattr(b, k)) for k in ("phi", "chi", "phip", "pres")}
    n = cfg["ns"]
    if case["flux"]:
        prof["phip"][0] = 0.0
    else:
        prof = {k: np.zeros(n) for k in prof}
    s_b = np.array(b.s_b)
    used = case["used"]
    other = dict(cfg, ns=cfg["ns"] % 7 + 2, asym=not cfg["asym"], seed=cfg["seed"] ^ 1)
    if used == "self":
        r = b
    elif used == "fresh":
        r = ctx.bx.Booz_xform()
    else:
        r = make(ctx.bx, case, other, True)
        if used != "loaded":
            r.mboz, r.nboz = 3, 2
            r.run()
        if used == "read":
            r.write_boozmn(q)
            r.read_boozmn(q)
    r.verbose = 0
    if used != "self":
        for k in case["dirty"]:
            x = getattr(r, k)
            setattr(r, k, (not x) if isinstance(x, bool) else x + 3 if isinstance(x, int) else 2.5 if isinstance(x, float) else
                    np.array([7, 1]) if k == "compute_surfs" else np.full((3,) * np.ndim(x), 0.25))
    r.read_boozmn(p)
    got = snap(r, RESTORED)
    for k in RESTORED:
        check(same(got[k], want[k]) or (np.asarray(want[k]).size == 0 and np.shape(got[k]) == np.shape(want[k])) or
              (isinstance(want[k], np.ndarray) and want[k].dtype.kind == "f" and value_same(got[k], want[k])),
              "%s is not restored: %s", k, describe(got[k], want[k]))
    for k, x in prof.items():
        check(value_same(getattr(r, k), x), "%s is not restored: %s", k, describe(getattr(r, k), x))
    close(r.s_b, s_b, 4e-15, "s_b")
    check(value_same(r.toroidal_flux, prof["phi"][-1]), "toroidal_flux is %r, the last phi is %r", r.toroidal_flux, prof["phi"][-1])
    r.write_boozmn(q)
    x, y = bytes_but_name(p), bytes_but_name(q)
    if x != y:
        from scipy.io import netcdf_file
        f, g = netcdf_file(p, mmap=False), netcdf_file(q, mmap=False)
        check(f.dimensions == g.dimensions, "dimensions differ when written again: %s %s", dict(f.dimensions), dict(g.dimensions))
        check(list(f.variables) == list(g.variables), "variables differ when written again")
        for k in f.variables:
            u, w = f.variables[k].data, g.variables[k].data
            check(np.shape(u) == np.shape(w) and value_same(u, w), "variable %s differs when the object read is written again: %s", k,
                  describe(w, u) if u.dtype.kind in "fi" else "text")
            check(f.variables[k]._attributes == g.variables[k]._attributes or case["flux"] is False,
                  "attributes of %s differ when written again", k)
    os.unlink(p)
    os.unlink(q)
    return {"nontrivial": b.mnboz > 1, "tags": vm.tags(cfg) + (["not finite"] if case["poison"] else []) + ["flux" if case["flux"] else "no flux", "into " + used]
            + (["unsorted"] if case["surfs"] != sorted(case["surfs"]) else [])}
