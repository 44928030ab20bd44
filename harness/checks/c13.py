"""C13: mapping of VMEC's full grid to the half grid."""
import numpy as np
from hypothesis import strategies as st
import gen
import vm
from bx import check, close

ID = "C13"
BUDGET = {"quick": 12000, "thorough": 200000}
RULE = ("random VMEC arrays passed to init_from_vmec: every input attribute afterwards against the documented mapping "
        "(reference), plus exact families: even-m amplitudes linear in s and odd-m amplitudes sqrt(s)(a+bs) must come out exact. "
        "Non-trivial: ns >= 3 and at least one odd-m mode, or ns = 2")


@st.composite
def _s(draw):
    cfg = draw(vm.vmec(max_ns=7, max_m=4))
    return {"cfg": cfg, "flux": draw(st.booleans()), "family": draw(st.booleans()), "order": draw(st.sampled_from(["C", "F"])),
            "used": draw(st.integers(0, 3)) == 0, "kw": draw(st.one_of(st.none(), st.integers(0, 17)))}


def strategy(tier):
    return _s()


def amplitude(v):
    return max(np.max(np.abs(v[k])) for k in vm.ORDER if k in v) + 1e-300


def run(case, ctx):
    cfg = case["cfg"]
    v = vm.build(cfg)
    ns = v["ns"]
    s = np.arange(ns) / (ns - 1.0)
    sh = (np.arange(ns - 1) + 0.5) / (ns - 1.0)
    exact = {}
    if case["family"]:
        m = v["xm"]
        for k in vm.FULL:
            if k not in v:
                continue
            A = gen.bulk(cfg["seed"], "A" + k, (len(m), 2))
            # odd m != 1: amplitude/sqrt(s) must vanish at the axis for exactness of the first point, so a = 0
            A[:, 0] = np.where((m % 2 == 1) & (m != 1), 0.0, A[:, 0])
            if ns == 2:
                A[:, 1] = np.where(m == 1, 0.0, A[:, 1])     # documented fallback: constant amplitude/sqrt(s)

            def val(x):
                lin = A[:, :1] + A[:, 1:] * x[None, :]
                return np.where((m % 2 == 1)[:, None], lin * np.sqrt(x)[None, :], lin)
            v[k] = val(s)
            exact[k] = val(sh)
    for k in vm.ORDER:
        if k in v and case["order"] == "C":
            v[k] = np.ascontiguousarray(v[k])
        elif k in v:
            v[k] = np.asfortranarray(v[k])
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    if case["used"]:
        w = vm.build(dict(cfg, ns=cfg["ns"] + 3, asym=True, seed=cfg["seed"] + 1))
        vm.call(b, w, True)
    vm.call(b, v, case["flux"], kw=case.get("kw"))
    e = vm.half(v, case["flux"])
    for k in ("iota", "lmns", "lmnc", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"):
        if k in e:
            close(getattr(b, k), e[k], 0.0, k)
    close(b.s_in, sh, 4e-16, "s_in")
    for k in vm.FULL:
        if k in e:
            tol = 4e-15 * (np.max(np.abs(v[k]), axis=1)[:, None] + 1e-300) * np.sqrt(ns)
            close(getattr(b, k), e[k], tol, k + " (documented mapping)")
            if k in exact:
                close(getattr(b, k), exact[k], tol * 4, k + " (exactly reproduced family)")
    for k in ("ns_in", "mboz", "nboz"):
        check(getattr(b, k) == e[k], "%s is %r, expected %r", k, getattr(b, k), e[k])
    check(np.array_equal(b.compute_surfs, e["compute_surfs"]), "compute_surfs is %s", b.compute_surfs)
    for k in ("phip", "chi", "pres", "phi"):
        close(getattr(b, k), e[k], 1e-15 * np.max(np.abs(e[k]), initial=0), k)
    check(b.toroidal_flux == e["toroidal_flux"], "toroidal_flux is %r, expected %r", b.toroidal_flux, e["toroidal_flux"])
    return {"nontrivial": ns == 2 or any(m % 2 for m, _ in cfg["modes"]),
            "tags": vm.tags(cfg) + ["exact family" if case["family"] else "random data", "flux" if case["flux"] else "no flux"]}
