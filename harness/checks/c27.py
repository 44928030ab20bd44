"""C27: the resolution selects which amplitudes are computed and how accurately, nothing else."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, close, ran, loaded, snap, same, describe, SYM_OUT, ASYM_OUT, INPUTS
from checks import c01

ID = "C27"
BUDGET = {"quick": 3200, "thorough": 48000}
RULE = ("smooth random configuration (or one of the repository's equilibria), run at two to four resolutions (below, at and above what "
        "resolves it) by fresh objects or one object; amplitudes of common modes are compared pairwise, the tolerance is rounding error plus "
        "twice the difference the reference shows; flux functions must be the same bitwise, inputs unchanged. For axisymmetric input also "
        "nboz=0 against nboz>0, whose n!=0 amplitudes vanish; for resolved pairs the additional amplitudes are as small as the reference's. "
        "Non-trivial: two resolutions between which the reference changes by less than 1e-6, and an angle change")
ASSUMPTIONS = ["the aliasing error at low resolution is the reference's"]


@st.composite
def _s(draw):
    if draw(st.integers(0, 3)) == 3:
        c = draw(gen.run_case(max_ns=3))
        lo = (1, 0)
    else:
        c = draw(gen.resolved_case())
        c.pop("points")
        lo = (8, 4)
    axisym = all(n == 0 for _, n in c["cfg"]["modes"] + c["cfg"]["modes_nyq"])
    M = st.one_of(st.integers(lo[0], 22), st.integers(1, 8))
    N = st.one_of(st.integers(0, 3), st.integers(0, 3)) if axisym else st.one_of(st.integers(lo[1], 13), st.integers(0, 4))
    k = draw(st.sampled_from([1, 1, 2, 3]))
    c["res"] = [[c["mboz"], c["nboz"]]] + [[draw(M), draw(N)] for _ in range(k)]
    if draw(st.booleans()):         # one parameter at a time
        i = draw(st.integers(0, 1))
        for r in c["res"][1:]:
            r[i] = c["res"][0][i]
    c["surfs"] = c["surfs"][:3]
    if draw(st.integers(0, 23)) == 17:      # far more than necessary in one direction
        c["res"] = c["res"][:2]
        c["surfs"] = c["surfs"][:1]
        c["res"][-1] = draw(st.sampled_from([[draw(st.integers(60, 180)), draw(st.integers(0, 2))], [draw(st.integers(1, 4)), draw(st.integers(50, 150))]]))
    # keeps the cost of one case within seconds
    c["res"] = [[m, n if (m * (2 * n + 1)) ** 2 < 1.5e7 else min(n, 2)] for m, n in c["res"]]
    if max(m for m, _ in c["res"]) * (2 * max(n for _, n in c["res"]) + 1) > 2500:
        c["surfs"] = c["surfs"][:1]
    c["one"] = draw(st.booleans())
    # a run of the same object on unusable numbers, at the highest resolution, before each of the others
    c["poison"] = draw(st.sampled_from(["", "", "", "nan", "inf", "zero"]))
    return c


def strategy(tier):
    return _s()


def run(case, ctx):
    cfg, S = case["cfg"], case["surfs"]
    a = gen.materialize(cfg)
    names = SYM_OUT + (ASYM_OUT if a["asym"] else [])
    axisym = np.all(a["xn"] == 0) and np.all(a["xn_nyq"] == 0)
    runs = []
    b = None
    for mboz, nboz in case["res"]:
        if b is None or not case["one"]:
            b = loaded(ctx.bx, a, mboz, nboz, S)
        if case["poison"] and case["one"]:
            x = np.array(a["bmnc"])
            x[:] = {"nan": np.nan, "inf": np.inf, "zero": 0.0}[case["poison"]]
            b.bmnc = x
            b.mboz, b.nboz = max(r[0] for r in case["res"]) + 1, max(r[1] for r in case["res"])
            if b.mboz * (2 * b.nboz + 1) > 4000:
                b.mboz, b.nboz = max(case["res"], key=lambda r: r[0] * (2 * r[1] + 1))
            b.run()
            b.bmnc = a["bmnc"]
        b.mboz, b.nboz = mboz, nboz
        b.run()
        check((b.mboz, b.nboz) == (mboz, nboz) and list(b.compute_surfs) == list(S), "the run changed mboz, nboz or compute_surfs")
        modes = {t: i for i, t in enumerate(zip(b.xm_b.tolist(), b.xn_b.tolist()))}
        for m in range(mboz):
            for n in range(-nboz, nboz + 1):
                check(m == 0 and n < 0 or (m, n * a["nfp"]) in modes, "mode (%d,%d) is missing at mboz=%d, nboz=%d", m, n, mboz, nboz)
        r = [ref.spectra(a, js, mboz, nboz) for js in S]
        runs.append((mboz, nboz, modes, snap(b, names + ["Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all", "s_b", "ns_b"]), r))
    best = np.inf
    m1, n1, t1, x1, r1 = runs[0]
    for m2, n2, t2, x2, r2 in runs[1:]:
        what = "mboz, nboz = %d, %d and %d, %d" % (m1, n1, m2, n2)
        for k in ("Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all", "s_b", "ns_b"):
            check(same(x1[k], x2[k]), "%s: %s depends on the resolution: %s", what, k, describe(x1[k], x2[k]))
        common = [t for t in t1 if t in t2]
        shared = set(common)
        check(len(common) == min(m1, m2) * (2 * min(n1, n2) + 1) - min(n1, n2), "%s: %d common modes", what, len(common))
        i1, i2 = np.array([t1[t] for t in common]), np.array([t2[t] for t in common])
        worst = 0.0
        for j, js in enumerate(S):
            for k in names:
                s = max(r1[j][1][c01.FIELD[k]], r2[j][1][c01.FIELD[k]])
                d = np.abs(r1[j][0][k][i1] - r2[j][0][k][i2])
                worst = max(worst, np.max(d) / (np.max(np.abs(r1[j][0][k])) + 1e-300) if s else 0.0)
                close(x2[k][i2, j], x1[k][i1, j], 2 * d + 2 * c01.tolerance(s, max(m1, m2), max(n1, n2)),
                      "%s: %s of common modes, surface %d" % (what, k, js))
        best = min(best, worst)
        # the amplitudes that only one of the two has are no larger than the reference's
        for m, n, t, x, r in ((m1, n1, t1, x1, r1), (m2, n2, t2, x2, r2)):
            i = np.array([q for mode, q in t.items() if mode not in shared], dtype=int)
            for j, js in enumerate(S):
                for k in names:
                    if len(i):
                        lim = 2 * np.max(np.abs(r[j][0][k][i])) + 2 * c01.tolerance(r[j][1][c01.FIELD[k]], m, n)
                        top = np.max(np.abs(x[k][i, j]))
                        check(top <= lim, "mboz, nboz = %d, %d: %s of surface %d has an amplitude %.3g beyond the modes of the other resolution, "
                              "where the reference has at most %.3g", m, n, k, js, top, lim)
    if axisym:
        for m, n, t, x, r in runs:
            i = np.array([q for (_, k), q in t.items() if k != 0], dtype=int)
            for j, js in enumerate(S):
                for k in names:
                    close(x[k][i, j], np.zeros(len(i)), c01.tolerance(r[j][1][c01.FIELD[k]], m, n) + 1e-300,
                          "%s of axisymmetric input has modes with n != 0" % k)
    return {"nontrivial": best < 1e-6 and gen.interesting_fields(cfg),
            "tags": gen.cfg_tags(cfg) + ["one object" if case["one"] else "fresh objects", "converged" if best < 1e-6 else "not converged"]
            + (["nboz=0 and nboz>0"] if len(set(bool(r[1]) for r in case["res"])) == 2 else [])}
