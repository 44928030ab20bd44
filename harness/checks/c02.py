"""C02: the output series as functions of the Boozer angles, at arbitrary mapped points."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, close, ran

ID = "C02"
BUDGET = {"quick": 3200, "thorough": 48000}
RULE = ("smooth random configuration; 12 random original angles per surface are mapped to Boozer angles with lambda, iota "
        "and nu of the reference, and the output series for |B|, R, Z, nu and the Jacobian are summed there. The tolerance "
        "is 4 times the truncation error of the reference series at the same points plus 1e-10. Non-trivial: that error is "
        "below 1e-5 (resolved), the angles really change and |B| varies")
ASSUMPTIONS = ["spectra are resolved when the reference's own truncation error at the tested points is below 1e-5 relative"]
PAIRS = {"B": ("bmnc_b", "bmns_b"), "R": ("rmnc_b", "rmns_b"), "Z": ("zmnc_b", "zmns_b"),
         "nu": ("numnc_b", "numns_b"), "J": ("gmnc_b", "gmns_b")}


@st.composite
def _s(draw):
    c = draw(gen.resolved_case())
    axisym = all(n == 0 for _, n in c["cfg"]["modes"] + c["cfg"]["modes_nyq"])
    if draw(st.integers(0, 11)) == 7:
        if axisym:
            c["mboz"] = draw(st.integers(31, 100))
        elif draw(st.booleans()):
            c["mboz"] = draw(st.integers(21, 64))
        else:
            c["nboz"] = draw(st.integers(13, 30))
        c["surfs"] = c["surfs"][:1]
    return c


def strategy(tier):
    return _s()


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    b = ran(ctx.bx, a, case["mboz"], case["nboz"], case["surfs"])
    u = gen.bulk(case["points"], "pt", (2, 12)) * np.pi
    th, ze = u[0] * 1.5, u[1] * 2
    worst = 0.0
    xm, xn = np.array(b.xm_b, dtype=float), np.array(b.xn_b, dtype=float)
    xmr, xnr = ref.modes_b(case["mboz"], case["nboz"], a["nfp"])
    for j, js in enumerate(case["surfs"]):
        out, _, grid = ref.spectra(a, js, case["mboz"], case["nboz"])
        f = ref.fields(a, js, th, ze)
        for q, (c, s) in PAIRS.items():
            want = f[q]
            scale = np.max(np.abs(grid[q])) + 1e-3 * (q in ("Z", "nu"))
            mine = ref.evaluate(xmr, xnr, out[c], out[s], f["thB"], f["zeB"])
            err = np.max(np.abs(mine - want))
            worst = max(worst, err / scale)

            def col(name):
                v = getattr(b, name)
                return v[:, j] if v.size else np.zeros(len(xm))
            got = ref.evaluate(xm, xn, col(c), col(s), f["thB"], f["zeB"])
            close(got, want, 4 * err + 1e-10 * scale, "%s of output column %d (surface %d) summed at mapped points" % (q, j, js))
    ok = worst < 1e-5
    tags = gen.cfg_tags(cfg) + ["resolved" if ok else "unresolved"]
    return {"nontrivial": ok and gen.interesting_fields(cfg), "tags": tags}
