"""C08: covariance under units, field reversal, shifts of the angles and reflection."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, close, ran, NONNYQ, NYQ, SYM_OUT, ASYM_OUT
from checks import c01

ID = "C08"
BUDGET = {"quick": 6000, "thorough": 80000}
RULE = ("random configuration, one transformation (length scale, field scale, field reversal, shift by a multiple of the grid "
        "spacing or by half a period, reflection, one angle measured in the opposite sense) applied to the inputs; outputs of the transformed run are compared with the "
        "transformed outputs. Non-trivial: more than one mode in each table, non-zero lambda or w, non-constant |B|, and a shift "
        "is not a multiple of the period")
FIELD = c01.FIELD
KINDS = ["length", "field", "reverse", "zeta", "zeta", "theta", "half-zeta", "half-theta", "reflect", "turn-theta", "turn-zeta"]
IN_PAIRS = [("rmnc", "rmns"), ("zmnc", "zmns"), ("lmnc", "lmns"), ("bmnc", "bmns"), ("bsubumnc", "bsubumns"), ("bsubvmnc", "bsubvmns")]
OUT_PAIRS = [("bmnc_b", "bmns_b"), ("rmnc_b", "rmns_b"), ("zmnc_b", "zmns_b"), ("numnc_b", "numns_b"), ("gmnc_b", "gmns_b")]


@st.composite
def _s(draw):
    kind = draw(st.sampled_from(KINDS))
    asym = True if kind in ("zeta", "theta", "reflect") else None
    c = draw(gen.run_case(asym=asym, strong=True))
    c["kind"] = kind
    c["factor"] = draw(st.sampled_from([2.0, 0.5, 3.7, 1e-3, 1e4, 0.01]))
    c["steps"] = draw(st.integers(1, 200))
    return c


def strategy(tier):
    return _s()


def rot(get, pair, xm, xn, dth, dze, asym):
    """Coefficients of f(theta+dth, zeta+dze)."""
    d = (xm * dth - xn * dze)[:, None]
    c, s = get(pair[0]), get(pair[1])
    C, S = np.cos(d), np.sin(d)
    if not asym:          # shifts by half periods
        C = np.round(C)
        return (None if c is None else c * C), (None if s is None else s * C)
    return c * C + s * S, s * C - c * S


def odd(name, m, theta):
    """Sign of an amplitude when one angle changes its sense (the mode n of m > 0 becomes -n, m = 0 is kept)."""
    if name.endswith("c"):
        return np.ones(len(m))
    return np.where(m, -1.0, 1.0) if theta else np.where(m, 1.0, -1.0)


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    asym, kind, k = a["asym"], case["kind"], case["factor"]
    mboz, nboz, S = case["mboz"], case["nboz"], case["surfs"]
    ntheta, nzeta = 2 * (2 * mboz + 1), (1 if nboz == 0 else 2 * (2 * nboz + 1))
    nfp = a["nfp"]
    b = ran(ctx.bx, a, mboz, nboz, S)
    a2 = dict(a)
    outs = {x: np.array(getattr(b, x)) for x in SYM_OUT + (ASYM_OUT if asym else [])}
    GI = {x: np.array(getattr(b, x)) for x in ("Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all")}
    tag = kind
    trivial = False
    if kind == "length":
        for x in ("rmnc", "rmns", "zmnc", "zmns"):
            if x in a:
                a2[x] = a[x] * k
        for x in outs:
            if x[0] in "rz":
                outs[x] = outs[x] * k
    elif kind == "field":
        for x in NYQ:
            if x in a:
                a2[x] = a[x] * k
        for x in outs:
            outs[x] = outs[x] * (k if x.startswith("bm") else 1 / k if x.startswith("g") else 1)
        GI = {x: v * k for x, v in GI.items()}
    elif kind == "reverse":
        for x in NYQ:
            if x in a and x.startswith("bsub"):
                a2[x] = -a[x]
        for x in outs:
            if x.startswith("g"):
                outs[x] = -outs[x]
        GI = {x: -v for x, v in GI.items()}
    elif kind == "reflect":
        flip = {"rmns": -1, "zmns": -1, "bmns": -1, "lmnc": -1, "bsubumnc": -1, "bsubvmnc": -1}
        for x, f in flip.items():
            a2[x] = a[x] * f
        # f'(x) = f(-x) for R, Z, B; -f(-x) for lambda, nu, Jacobian
        for x in outs:
            neg = x.endswith("s_b") if x[0] in "rzb" else not x.endswith("s_b")
            if neg:
                outs[x] = -outs[x]
        GI = {x: -v for x, v in GI.items()}
    elif kind in ("turn-theta", "turn-zeta"):
        # one angle measured in the opposite sense: iota changes sign, and the component along that angle
        th = kind == "turn-theta"
        a2["iota"] = -a["iota"]
        for q, names in (("", NONNYQ), ("_nyq", NYQ)):
            m = a["xm" + q] > 0
            a2["xn" + q] = np.where(m, -a["xn" + q], a["xn" + q]).astype(a["xn" + q].dtype)
            for x in names:
                if x in a:
                    a2[x] = a[x] * odd(x, m, th)[:, None] * (-1 if x.startswith("l" if th else "bsubv") or th and x.startswith("bsubu") else 1)
        m, n = np.array(b.xm_b), np.array(b.xn_b)
        row = {mn: i for i, mn in enumerate(zip(m, n))}
        perm = [row[(p, -q if p > 0 else q)] for p, q in zip(m, n)]
        for x in outs:
            outs[x] = outs[x][perm] * odd(x[:-2], m > 0, th)[:, None] * (-1 if not th and x[0] in "ng" else 1)
        GI = {x: -v if ("_I" in x) == th else v for x, v in GI.items()}
    else:
        dth = dze = 0.0
        if kind == "zeta":
            n = case["steps"] % nzeta
            dze = n * 2 * np.pi / (nfp * nzeta)
            trivial = n == 0
        elif kind == "theta":
            n = case["steps"] % ntheta
            dth = n * 2 * np.pi / ntheta
            trivial = n == 0
        elif kind == "half-theta":
            dth = np.pi
        else:
            dze = np.pi / nfp
            if nboz == 0:
                return {"nontrivial": False, "tags": ["half-zeta skipped (nboz=0)"]}
        for p in IN_PAIRS:
            if not asym and p[0] not in a and p[1] not in a:
                continue
            q = p[0] in NYQ
            xm, xn = (a["xm_nyq"], a["xn_nyq"]) if q else (a["xm"], a["xn"])
            c, s = rot(lambda x: a.get(x), p, xm.astype(float), xn.astype(float), dth, dze, asym)
            for x, v in ((p[0], c), (p[1], s)):
                if v is not None:
                    a2[x] = v
        for p in OUT_PAIRS:
            c, s = rot(lambda x: outs.get(x), p, b.xm_b.astype(float), b.xn_b.astype(float), dth, dze, asym)
            for x, v in ((p[0], c), (p[1], s)):
                if v is not None:
                    outs[x] = v
    c = ran(ctx.bx, a2, mboz, nboz, S)
    for x, v in GI.items():
        close(getattr(c, x), v, 1e-13 * np.abs(v), "%s after %s" % (x, kind))
    for j, js in enumerate(S):
        f = ref.fields(a, js, *ref.grid(mboz, nboz, nfp)[:2])
        g = ref.fields(a2, js, *ref.grid(mboz, nboz, nfp)[:2])
        for x in outs:
            s = max(f["amp"][FIELD[x]], g["amp"][FIELD[x]]) if kind not in ("length", "field") else g["amp"][FIELD[x]]
            # a shift by a large angle n*dzeta costs rounding proportional to n
            big = 1 + max(np.max(np.abs(a["xn_nyq"])), np.max(np.abs(a["xn"])), nfp * nboz) * 0.1
            close(getattr(c, x)[:, j], outs[x][:, j], 4 * big * c01.tolerance(s, mboz, nboz) + 1e-300, "%s column %d after %s" % (x, j, kind))
    return {"nontrivial": gen.interesting_fields(cfg) and not trivial, "tags": gen.cfg_tags(cfg) + [tag]}
