"""C12: run, write and plotting leave the inputs alone; verbosity is inert."""
import os
import numpy as np
from hypothesis import strategies as st
import gen
import vm
from bx import check, snap, same, describe, set_attrs, quiet_fd, loaded, INPUTS, OUTPUTS, ALL

ID = "C12"
BUDGET = {"quick": 2400, "thorough": 40000}
RULE = ("random configuration (directly assigned, init_from_vmec or read_wout; down to one surface, one mode, ns=2): snapshots of all "
        "attributes before and after run, write_boozmn and each plotting function; the whole sequence (load, run, write, read back) "
        "is repeated with verbose 0, 1, 2 and another number (also negative) and must give bitwise the same attributes and file, with no output at verbose 0. "
        "Non-trivial: more than one mode or surface")
ASSUMPTIONS = ["write_boozmn sets the object's phip[0] to 0 when flux data are present (the boozmn format stores 0 there and an existing "
               "test compares file and object); that one element is exempt"]


EDITS = ["aspect", "toroidal_flux", "phi", "phip", "chi", "pres", "iota", "s_in", "rmnc", "lmns", "bmnc", "bsubumnc", "bsubvmnc",
         "mpol", "ntor", "mpol_nyq", "ntor_nyq"]


@st.composite
def _s(draw):
    how = draw(st.sampled_from(["direct", "vmec", "wout"]))
    c = {"how": how, "plots": draw(st.integers(0, 11)) == 0, "flux": draw(st.booleans())}
    if how == "direct":
        c.update(draw(gen.run_case(max_ns=3, max_m=3, max_n=2)))
    else:
        c["cfg"] = draw(vm.vmec(max_ns=4, max_m=2, max_n=2))
        c["surfs"] = draw(gen.surfaces(c["cfg"]["ns"] - 1))
    c["mboz"], c["nboz"] = draw(st.integers(1, 7)), draw(st.integers(0, 4))
    c["threads"] = draw(st.sampled_from([1, 1, 3]))
    # values a user may give to attributes after loading, which nothing may 'correct'
    c["edits"] = draw(st.lists(st.sampled_from(EDITS), max_size=4, unique=True))
    c["late"] = draw(st.sampled_from(["", "surfs", "res", "iota"]))       # what is changed between the run and the plots
    c["verbose"] = draw(st.sampled_from([2, 2, 3, -1, 7, -5, 1000]))
    c["eseed"] = draw(st.integers(0, 2**32 - 1))
    return c


def strategy(tier):
    return _s()


def unchanged(b, before, names, what, phip0=False):
    after = snap(b, names)
    for k in names:
        x, y = before[k], after[k]
        if k == "phip" and phip0 and np.size(y):
            x, y = x[1:], y[1:]
        check(same(x, y), "%s changed %s: %s", what, k, describe(y, x))


def load(ctx, case, verbose, wout):
    b = ctx.bx.Booz_xform()
    b.verbose = verbose
    if case["how"] == "direct":
        set_attrs(b, gen.materialize(case["cfg"]))
    elif case["how"] == "vmec":
        vm.call(b, vm.build(case["cfg"]), case["flux"])
    else:
        b.read_wout(wout, case["flux"])
    b.mboz, b.nboz, b.compute_surfs = case["mboz"], case["nboz"], case["surfs"]
    for k in case["edits"]:
        x = getattr(b, k)
        if isinstance(x, int):
            x = x + 1
        elif np.ndim(x) == 0:
            x = 3.25 + float(gen.bulk(case["eseed"], "e" + k, (1,))[0])
        elif k == "s_in":
            x = np.sort(np.abs(gen.bulk(case["eseed"], k, np.shape(x))))
        elif k in ("phi", "phip", "chi", "pres") and np.size(x) == 0:
            for q in ("phi", "phip", "chi", "pres"):      # write_boozmn wants all four or none
                setattr(b, q, gen.bulk(case["eseed"], q, (b.ns_in + 1,)))
            continue
        else:
            x = np.array(x) * (1 + 0.1 * gen.bulk(case["eseed"], k, np.shape(x)))
        setattr(b, k, x)
    return b


def run(case, ctx):
    import ctypes
    cfg = case["cfg"]
    wout = ctx.path("wout_c12.nc")
    if case["how"] == "wout":
        vm.write_wout(wout, vm.build(cfg))
    ctx.bx
    gomp = ctypes.CDLL("libgomp.so.1")
    gomp.omp_set_num_threads(case["threads"])
    try:
        res = {}
        levels = sorted({0, 1, 2, case.get("verbose", 2)})
        for verbose in levels:
            out = ctx.path("stdout%d.txt" % verbose)
            f, r = ctx.path("b%d.nc" % verbose), ctx.bx.Booz_xform()
            r.verbose = verbose
            with quiet_fd(out):
                b = load(ctx, case, verbose, wout)
                before = snap(b, INPUTS + ["verbose"])
                b.run()
                unchanged(b, before, INPUTS + ["verbose"], "run()")
                before = snap(b, ALL + ["verbose"])
                b.write_boozmn(f)
                unchanged(b, before, ALL + ["verbose"], "write_boozmn()", phip0=True)
                r.read_boozmn(f)
                check(r.verbose == verbose, "read_boozmn changed verbose")
            text = open(out, errors="replace").read()
            if verbose <= 0:
                check(text == "", "something was printed with verbose=%d: %r", verbose, text[:200])
            elif verbose == 1:
                check(text != "", "nothing was printed with verbose=1")
            res[verbose] = (snap(b, ALL), open(f, "rb").read(), snap(r, OUTPUTS + ["mboz", "nboz", "nfp", "asym", "iota", "compute_surfs"]))
        for verbose in levels:
            for i, what in ((0, "after run and write"), (2, "after reading back")):
                for k in res[0][i]:
                    check(same(res[0][i][k], res[verbose][i][k]), "%s %s depends on verbose: %s", k, what,
                          describe(res[verbose][i][k], res[0][i][k]))
            check(res[0][1] == res[verbose][1], "the written file depends on verbose")
    finally:
        gomp.omp_set_num_threads(1)
    if case["plots"]:
        import matplotlib.pyplot as plt
        keep = np.array(b.compute_surfs)
        if case["late"] == "surfs":
            b.compute_surfs = [(case["eseed"] >> k) % b.ns_in for k in range(case["eseed"] % 5)]
        elif case["late"] == "res":
            b.mboz, b.nboz = case["mboz"] + 1, case["nboz"] + 1
        elif case["late"] == "iota":
            b.iota = np.array(b.iota) + 0.5
        before = snap(b, ALL + ["verbose"])
        for name, kw in (("surfplot", {"ntheta": 4, "nphi": 5}), ("symplot", {"remove_helicity": (1, 0)}), ("symplot", {"log": False, "sqrts": True}),
                         ("modeplot", {"nmodes": 3, "remove_helicity": (1, 1)}), ("modeplot", {"B0": False, "log": False})):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                plt.figure()
                try:
                    getattr(ctx.bx, name)(b, **kw)
                finally:
                    plt.close("all")
            unchanged(b, before, ALL + ["verbose"], name + "()")
        import fakeplotly
        b.compute_surfs = keep
        before = snap(b, ALL + ["verbose"])
        with fakeplotly.installed(ctx.bx):
            ctx.bx.wireplot(b, ntheta=3, nphi=3, refine=2)
        unchanged(b, before, ALL + ["verbose"], "wireplot()")
    for f in os.listdir(ctx.tmp):
        if f.endswith((".nc", ".txt")):
            os.unlink(os.path.join(ctx.tmp, f))
    return {"nontrivial": len(cfg["modes"]) > 1 or cfg["ns"] > 2, "tags": [case["how"], "asym" if cfg["asym"] else "sym"]
            + (["plots"] if case["plots"] else []) + (["threads"] if case["threads"] > 1 else [])}
