"""C03: nu and the angles taken from the output satisfy the Boozer-coordinate equations."""
import numpy as np
import gen
import ref
from bx import check, close, ran

ID = "C03"
BUDGET = {"quick": 1600, "thorough": 24000}
RULE = ("random configuration with covariant components derived from one potential; nu on a grid of the original angles is "
        "obtained from the output series alone (fixed point of nu = series(theta_B, zeta_B)), differentiated spectrally, and "
        "B_theta0 and B_zeta0 rebuilt from G, I and the angle derivatives are compared with the input series. The tolerance is "
        "4 times the residual the reference output leaves plus 1e-9. Non-trivial: reference residual below 1e-5, some "
        "covariant or lambda mode present")
ASSUMPTIONS = ["resolved = the reference output leaves a residual below 1e-5 relative"]


def strategy(tier):
    return gen.resolved_case(consistent=True)


def residual(a, js, xm, xn, nuc, nus, I, G, N):
    nfp = a["nfp"]
    nt, nz = N
    t = 2 * np.pi * np.arange(nt) / nt
    z = 2 * np.pi * np.arange(nz) / (nz * nfp)
    T, Z = [v.ravel() for v in np.meshgrid(t, z, indexing="ij")]
    f = ref.fields(a, js, T, Z)
    iota = a["iota"][js]
    nu = np.zeros(len(T))
    keep = (np.abs(nuc) + np.abs(nus)) > 1e-16 * (np.max(np.abs(nuc) + np.abs(nus)) + 1e-300)
    xm, xn, nuc, nus = xm[keep], xn[keep], nuc[keep], nus[keep]
    for _ in range(60):
        new = ref.evaluate(xm, xn, nuc, nus, T + f["lam"] + iota * nu, Z + nu) if len(xm) else np.zeros(len(T))
        d = np.max(np.abs(new - nu)) if np.all(np.isfinite(new)) else np.inf
        nu = new
        if d < 1e-13 or not np.isfinite(d):
            break
    if not (d < 1e-11):
        return np.inf, np.inf
    F = np.fft.fft2(nu.reshape(nt, nz))
    km = np.fft.fftfreq(nt, 1.0 / nt)[:, None]
    kn = np.fft.fftfreq(nz, 1.0 / nz)[None, :] * nfp
    km = np.where(np.abs(km) * 2 == nt, 0, km)
    kn = np.where(np.abs(kn) * 2 == nz * nfp, 0, kn)
    nt_ = np.fft.ifft2(1j * km * F).real.ravel()
    nz_ = np.fft.ifft2(1j * kn * F).real.ravel()
    # lambda's derivatives from its own series on the grid
    L = np.fft.fft2(f["lam"].reshape(nt, nz))
    lt = np.fft.ifft2(1j * km * L).real.ravel()
    lz = np.fft.ifft2(1j * kn * L).real.ravel()
    bu = I * (1 + lt + iota * nt_) + G * nt_
    bv = I * (lz + iota * nz_) + G * (1 + nz_)
    scale = abs(G) + abs(I)
    return np.max(np.abs(bu - f["Bu"])) / scale, np.max(np.abs(bv - f["Bv"])) / scale


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    b = ran(ctx.bx, a, case["mboz"], case["nboz"], case["surfs"])
    xmr, xnr = ref.modes_b(case["mboz"], case["nboz"], a["nfp"])
    xm, xn = np.array(b.xm_b, dtype=float), np.array(b.xn_b, dtype=float)
    top = max(abs(n) for _, n in cfg["modes"] + cfg["modes_nyq"])
    N = (16, 1 if top == 0 else 12 + 4 * max(top - 2, 0))
    worst = 0.0
    for j, js in enumerate(case["surfs"][:2]):
        out, _, f = ref.spectra(a, js, case["mboz"], case["nboz"])
        mine = residual(a, js, xmr, xnr, out["numnc_b"], out["numns_b"], f["I"], f["G"], N)
        worst = max(worst, *mine)
        if worst > 1e-5:
            continue
        nuc = b.numnc_b[:, j] if b.numnc_b.size else np.zeros(len(xm))
        got = residual(a, js, xm, xn, nuc, b.numns_b[:, j], b.Boozer_I[j], b.Boozer_G[j], N)
        for what, g, m in zip(("theta", "zeta"), got, mine):
            check(g <= 4 * m + 1e-9, "the %s component of the Boozer-coordinate equation is violated on surface %d: relative residual %.3g"
                  " (reference leaves %.3g)", what, js, g, m)
    ok = worst < 1e-5
    return {"nontrivial": ok and (cfg["w"] > 0 or (cfg["lam"] > 0 and cfg["I"] != 0)) and len(cfg["modes_nyq"]) > 1,
            "tags": gen.cfg_tags(cfg) + ["resolved" if ok else "unresolved"]
            + (["m=0 covariant modes"] if any(m == 0 and n != 0 for m, n in cfg["modes_nyq"]) else [])}
