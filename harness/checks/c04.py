"""C04: G, I, s_b and sqrt(g) B^2 = G + iota I."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, close, ran

ID = "C04"
BUDGET = {"quick": 6000, "thorough": 80000}
RULE = ("random configuration and surface list: surface averages of B_theta, B_zeta computed on a grid against Boozer_I/G(_all), "
        "s_b against s_in; for resolved configurations the product of output Jacobian and output |B|^2 at random Boozer angles "
        "against G+iota*I. Non-trivial: I != 0 or more than one surface; for the product, resolved (reference error < 1e-5)")


@st.composite
def _s(draw):
    if draw(st.integers(0, 4)) == 0:
        c = draw(gen.resolved_case(strengths=(0.05, 0.15, 0.25)))
        c["kind"] = "product"
        c["cfg"]["B0"] = draw(st.sampled_from([1.0, 2.5]))
        return c
    c = draw(gen.run_case(max_ns=7))
    c["mboz"], c["nboz"] = min(c["mboz"], 4), min(c["nboz"], 3)
    c["kind"] = "profiles"
    return c


def strategy(tier):
    return _s()


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    S = case["surfs"]
    b = ran(ctx.bx, a, case["mboz"], case["nboz"], S)
    N = 2 * max(m for m, _ in cfg["modes_nyq"]) + 3
    M = 2 * max(abs(n) for _, n in cfg["modes_nyq"]) + 3
    T, Z = [v.ravel() for v in np.meshgrid(2 * np.pi * np.arange(N) / N, 2 * np.pi * np.arange(M) / (M * a["nfp"]), indexing="ij")]
    scale = np.abs(a["bsubumnc"]).sum() + np.abs(a["bsubvmnc"]).sum()
    if a["asym"]:
        scale += np.abs(a["bsubumns"]).sum() + np.abs(a["bsubvmns"]).sum()
    I, G = np.zeros(a["ns_in"]), np.zeros(a["ns_in"])
    f = {}
    for js in range(a["ns_in"]):
        f = ref.fields(a, js, T, Z)
        I[js], G[js] = f["Bu"].mean(), f["Bv"].mean()
    tol = 1e-13 * scale
    close(b.Boozer_I_all, I, tol, "Boozer_I_all")
    close(b.Boozer_G_all, G, tol, "Boozer_G_all")
    close(b.Boozer_I, I[S], tol, "Boozer_I")
    close(b.Boozer_G, G[S], tol, "Boozer_G")
    close(b.s_b, a["s_in"][S], 0.0, "s_b")
    check(b.ns_b == len(S), "ns_b is %d for %d surfaces", b.ns_b, len(S))
    check(np.array_equal(b.compute_surfs, S), "compute_surfs changed")
    tags = gen.cfg_tags(cfg) + [case["kind"]]
    nontrivial = cfg["I"] != 0 or len(S) > 1
    if case["kind"] == "product":
        u = gen.bulk(case["points"], "pt", (2, 10)) * np.pi
        xm, xn = np.array(b.xm_b, dtype=float), np.array(b.xn_b, dtype=float)
        xr, nr = ref.modes_b(case["mboz"], case["nboz"], a["nfp"])
        worst = 0
        for j, js in enumerate(S):
            out, _, _ = ref.spectra(a, js, case["mboz"], case["nboz"])
            D = G[js] + a["iota"][js] * I[js]
            pr = ref.evaluate(xr, nr, out["gmnc_b"], out["gmns_b"], *u) * ref.evaluate(xr, nr, out["bmnc_b"], out["bmns_b"], *u) ** 2
            err = np.max(np.abs(pr - D))
            worst = max(worst, err / abs(D))
            z = np.zeros(len(xm))
            gs, bs = (b.gmns_b[:, j], b.bmns_b[:, j]) if a["asym"] else (z, z)
            got = ref.evaluate(xm, xn, b.gmnc_b[:, j], gs, *u) * ref.evaluate(xm, xn, b.bmnc_b[:, j], bs, *u) ** 2
            close(got, np.full(10, D), 4 * err + 1e-9 * abs(D), "Jacobian times |B|^2 on surface %d" % js)
        nontrivial = worst < 1e-5 and cfg["b"] > 0
        tags.append("resolved" if worst < 1e-5 else "unresolved")
    return {"nontrivial": nontrivial, "tags": tags}
