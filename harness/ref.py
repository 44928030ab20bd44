"""Independent reference: the equations of docs/source/theory.rst in numpy.

Differences from the code under test, on purpose: complex exponentials evaluated directly
(no recurrences), always the full theta grid (no half-grid weights), matrix products instead
of mode loops.
"""
import numpy as np

COS = {"bmnc_b": "B", "rmnc_b": "R", "zmnc_b": "Z", "numnc_b": "nu", "gmnc_b": "J"}
SIN = {"bmns_b": "B", "rmns_b": "R", "zmns_b": "Z", "numns_b": "nu", "gmns_b": "J"}
SYM_OUT = ["bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b"]
ASYM_OUT = ["bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"]


def modes_b(mboz, nboz, nfp):
    xm, xn = [], []
    for m in range(mboz):
        for n in range(0 if m == 0 else -nboz, nboz + 1):
            xm.append(m)
            xn.append(n * nfp)
    return np.array(xm), np.array(xn)


def grid(mboz, nboz, nfp):
    ntheta = 2 * (2 * mboz + 1)
    nzeta = 1 if nboz == 0 else 2 * (2 * nboz + 1)
    th = 2 * np.pi * np.arange(ntheta) / ntheta
    ze = 2 * np.pi * np.arange(nzeta) / (nzeta * nfp)
    T, Z = np.meshgrid(th, ze, indexing="ij")
    return T.ravel(), Z.ravel(), ntheta, nzeta


def _series(E, c, s):
    """sum c cos(angle) + s sin(angle), E = exp(i angle) of shape (points, modes)."""
    out = E.real @ c
    if s is not None:
        out = out + E.imag @ s
    return out


def fields(a, js, th, ze):
    """All fields of surface js at original angles (th, ze)."""
    asym = a["asym"]
    xm, xn = a["xm"].astype(float), a["xn"].astype(float)
    E = np.exp(1j * (np.outer(th, xm) - np.outer(ze, xn)))
    zero = np.zeros(len(xm))

    def two(name_c, name_s, sym_is_cos):
        c = a[name_c][:, js] if (sym_is_cos or asym) else zero
        s = a[name_s][:, js] if (not sym_is_cos or asym) else zero
        return c, s
    rc, rs = two("rmnc", "rmns", True)
    zc, zs = two("zmnc", "zmns", False)
    lc, ls = two("lmnc", "lmns", False)
    f = {}
    f["R"] = _series(E, rc, rs)
    f["Z"] = _series(E, zc, zs)
    lam = _series(E, lc, ls)
    lam_t = _series(E, xm * ls, -xm * lc)
    lam_z = _series(E, -xn * ls, xn * lc)

    qm, qn = a["xm_nyq"].astype(float), a["xn_nyq"].astype(float)
    Q = np.exp(1j * (np.outer(th, qm) - np.outer(ze, qn)))
    zq = np.zeros(len(qm))
    bc = a["bmnc"][:, js]
    bs = a["bmns"][:, js] if asym else zq
    f["B"] = _series(Q, bc, bs)
    uc, vc = a["bsubumnc"][:, js], a["bsubvmnc"][:, js]
    us = a["bsubumns"][:, js] if asym else zq
    vs = a["bsubvmns"][:, js] if asym else zq
    ws, wc = np.zeros(len(qm)), np.zeros(len(qm))
    I = G = 0.0
    for k in range(len(qm)):
        if qm[k] != 0:
            ws[k] = uc[k] / qm[k]
            wc[k] = -us[k] / qm[k]
        elif qn[k] != 0:
            ws[k] = -vc[k] / qn[k]
            wc[k] = vs[k] / qn[k]
        else:
            I, G = uc[k], vc[k]
    iota = a["iota"][js]
    D = G + iota * I
    w = _series(Q, wc, ws)
    w_t = _series(Q, qm * ws, -qm * wc)
    w_z = _series(Q, -qn * ws, qn * wc)
    f["I"], f["G"], f["iota"] = I, G, iota
    f["lam"] = lam
    f["nu"] = (w - I * lam) / D
    nu_t = (w_t - I * lam_t) / D
    nu_z = (w_z - I * lam_z) / D
    f["thB"] = th + lam + iota * f["nu"]
    f["zeB"] = ze + f["nu"]
    f["jac"] = (1 + lam_t) * (1 + nu_z) + (iota - lam_z) * nu_t
    f["J"] = D / f["B"] ** 2
    # bounds of the sums of absolute values of all terms, for rounding-error tolerances
    def mag(*cs):
        return sum(np.sum(np.abs(c)) for c in cs if c is not None)
    lt, lz = mag(xm * ls, xm * lc), mag(xn * ls, xn * lc)
    nt_ = (mag(qm * ws, qm * wc) + abs(I) * lt) / abs(D)
    nz_ = (mag(qn * ws, qn * wc) + abs(I) * lz) / abs(D)
    jac = (1 + lt) * (1 + nz_) + (abs(iota) + lz) * nt_
    f["amp"] = {"R": jac * mag(rc, rs), "Z": jac * mag(zc, zs), "B": jac * mag(bc, bs),
                "nu": jac * (mag(ws, wc) + abs(I) * mag(ls, lc)) / abs(D), "J": jac * np.max(np.abs(f["J"]))}
    # covariant components at the points
    f["Bu"] = _series(Q, uc, us)
    f["Bv"] = _series(Q, vc, vs)
    return f


def spectra(a, js, mboz, nboz, mgrid=None, ngrid=None):
    """Reference output columns: dict name -> (mnboz,) plus per-field scale and fields."""
    nfp = a["nfp"]
    th, ze, nt, nz = grid(mgrid or mboz, nboz if ngrid is None else ngrid, nfp)
    f = fields(a, js, th, ze)
    EM = np.exp(1j * np.outer(f["thB"], np.arange(mboz)))
    EN = np.exp(-1j * nfp * np.outer(f["zeB"], np.arange(-nboz, nboz + 1)))
    xm, xn = modes_b(mboz, nboz, nfp)
    im, jn = xm, xn // nfp + nboz
    out, scale = {}, {}
    norm = np.full(len(xm), 2.0 / (nt * nz))
    norm[0] *= 0.5
    for q in ("B", "R", "Z", "nu", "J"):
        w = f["jac"] * f[q]
        C = (EM * w[:, None]).T @ EN
        c = C[im, jn] * norm
        scale[q] = f["amp"][q]
        for tab, part in ((COS, c.real), (SIN, c.imag)):
            for name, qq in tab.items():
                if qq == q:
                    out[name] = part
    return out, scale, f


def evaluate(xm_b, xn_b, cosc, sinc, th, ze):
    E = np.exp(1j * (np.outer(th, xm_b) - np.outer(ze, xn_b)))
    return _series(E, cosc if cosc is not None else np.zeros(len(xm_b)), sinc)
