"""C14: read_wout on files written by an independent writer."""
import os
import shutil
import numpy as np
from hypothesis import strategies as st
import gen
import names
import real
import nc4
import vm
from bx import check, close, snap, same, describe, INPUTS

ID = "C14"
BUDGET = {"quick": 4000, "thorough": 60000}
RULE = ("random equilibrium written with scipy's netCDF writer (CDF-1 or CDF-2) and sometimes converted to CDF-5 or netCDF-4 (contiguous or compressed), with or without unrelated variables, mode tables "
        "as float or integer, and loaded with read_wout into a fresh or used object; every input attribute is compared with "
        "init_from_vmec on the same arrays and with the documented values. Non-trivial: more than one mode")


@st.composite
def _s(draw):
    return {"cfg": draw(vm.vmec(max_ns=6, max_m=3)), "flux": draw(st.sampled_from([True, False, None])),
            "fmt": draw(st.sampled_from(["CDF-1"] * 4 + ["CDF-2"] * 3 + ["CDF-5", "netCDF-4", "netCDF-4 chunked", "netCDF-4 classic"])), "extra": draw(st.booleans()), "int_tables": draw(st.booleans()),
            "used": draw(st.sampled_from([None, None, "wout", "flux"])), "verbose": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "kw": draw(st.booleans()), "place": draw(names.KINDS), "lasym": draw(st.sampled_from([None, None, 1, -1, 2])),
            "noflux_vars": draw(st.booleans()), "odd": draw(st.sampled_from([None] * 20 + ["nfp", "first", "last", "length"]))}


def strategy(tier):
    return _s()


def odd_file(case, ctx, v):
    """A file with contradicting numbers: read_wout must refuse what init_from_vmec refuses."""
    t = ["xm", "xn"][case["cfg"]["seed"] % 2]
    if case["odd"] == "nfp":
        v["nfp"] = -v["nfp"]
    elif case["odd"] == "first":
        v[t][0] = v["nfp"]
    elif case["odd"] == "last":
        v["xn"][-1] += v["nfp"]
    else:
        v["mpol"], v["ntor"] = v["mpol"] + 40, v["ntor"] + 40
    p = ctx.path("wout_odd.nc")
    vm.write_wout(p, v, extra=case["extra"], int_tables=case["int_tables"])
    said = []
    for what in ("init_from_vmec", "read_wout"):
        b = ctx.bx.Booz_xform()
        b.verbose = 0
        try:
            if what == "read_wout":
                b.read_wout(p, bool(case["flux"]))
            else:
                q = dict(v, mpol_nyq=int(v["xm_nyq"][-1]), ntor_nyq=int(v["xn_nyq"][-1] / v["nfp"]))
                vm.call(b, q, bool(case["flux"]))
            said.append("accepts")
        except Exception:
            said.append("refuses")
    os.unlink(p)
    check(said[0] == said[1], "a file with odd %s: init_from_vmec %s its numbers, read_wout %s it", case["odd"], *said)
    return {"nontrivial": True, "tags": ["odd " + case["odd"], "refused" if said[0] == "refuses" else "accepted"]}


def run(case, ctx):
    v = vm.build(case["cfg"])
    if case.get("odd"):
        return odd_file(case, ctx, v)
    with names.place(ctx, case.get("place"), "wout_x.nc") as p:
        return one_file(case, ctx, v, p)


def one_file(case, ctx, v, p):
    cfg = case["cfg"]
    lasym = None
    if case["lasym"] is not None and v["asym"]:
        lasym = case["lasym"]                       # Fortran logicals: any non-zero is true
    drop = vm.FLUX if (not case["flux"] and case["noflux_vars"]) else ()
    vm.write_wout(p, v, version=2 if case["fmt"] == "CDF-2" else 1, extra=case["extra"], int_tables=case["int_tables"], lasym=lasym, drop=drop)
    if cfg.get("wout") and case["extra"]:            # the file itself, with everything VMEC writes
        shutil.copyfile(real.path(cfg["wout"]), p)
    if case["fmt"] not in ("CDF-1", "CDF-2"):
        nc4.convert(p, p + "4", case["fmt"].replace(" chunked", ""), "chunked" in case["fmt"])
        os.rename(p + "4", p)
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    if case["used"]:
        w = vm.build(dict(cfg, ns=cfg["ns"] + 2, asym=not cfg["asym"], seed=cfg["seed"] + 1, nfp=cfg["nfp"] + 1))
        q = ctx.path("wout_y.nc")
        vm.write_wout(q, w)
        b.read_wout(q, case["used"] == "flux")
        os.unlink(q)
    b.verbose = case["verbose"]
    if case["flux"] is None:
        b.read_wout(p)
    elif case["kw"]:
        b.read_wout(filename=p, flux=case["flux"])
    else:
        b.read_wout(p, case["flux"])
    os.unlink(p)
    flux = bool(case["flux"])
    e = vm.half(v, flux)
    e["aspect"] = v["aspect"]
    e["mpol_nyq"], e["ntor_nyq"] = int(v["xm_nyq"][-1]), int(v["xn_nyq"][-1]) // v["nfp"]
    c = ctx.bx.Booz_xform()
    c.verbose = 0
    vm.call(c, dict(v, mpol_nyq=e["mpol_nyq"], ntor_nyq=e["ntor_nyq"]), flux)
    c.aspect = v["aspect"]
    keys = [k for k in INPUTS if not (k in vm.ASYM_ONLY and not v["asym"])]
    x, y = snap(b, keys), snap(c, keys)
    for k in keys:
        check(same(x[k], y[k]), "%s after read_wout differs from init_from_vmec on the same arrays: %s", k, describe(x[k], y[k]))
    for k, want in e.items():
        got = x[k]
        if isinstance(want, np.ndarray):
            if k in vm.FULL or k in ("s_in", "phip"):
                close(got, want, 1e-14 * np.max(np.abs(want), initial=0) * np.sqrt(v["ns"]), k)
            else:
                check(np.array_equal(got, want), "%s: %s", k, describe(got, want))
        else:
            check(got == want, "%s is %r, expected %r", k, got, want)
    return {"nontrivial": len(cfg["modes"]) > 1,
            "tags": vm.tags(cfg) + ["flux=%s" % case["flux"], case["fmt"]] + (["used object"] if case["used"] else [])}
