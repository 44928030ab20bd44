"""C05: canonical mode table and shapes, also on reused objects."""
import os
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, close, ran, set_attrs, SYM_OUT, ASYM_OUT, OUT_MISC
from checks import c01

ID = "C05"
BUDGET = {"quick": 6000, "thorough": 80000}
RULE = ("one object is used for one to three configurations of different size, symmetry, resolution and surface list (directly "
        "assigned, or the first one read from a boozmn file); after each run the mode table, mnboz, ns_b and every shape are "
        "compared with their definition and, in the last step, every output number with the reference. Non-trivial: the object "
        "was used before with a different symmetry class, resolution or surface list, or mnboz > 1")


@st.composite
def _s(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    steps = [draw(gen.run_case(max_ns=3, max_m=3, max_n=2)) for _ in range(n)]
    for s in steps:
        s["via_file"] = draw(st.booleans())
        if draw(st.integers(0, 15)) == 11:
            s["surfs"] = []                 # nothing is to be transformed
    if draw(st.integers(0, 9)) == 0:
        steps[-1]["mboz"] = draw(st.integers(20, 130))
        steps[-1]["nboz"] = draw(st.sampled_from([0, 1, 2]))
    elif draw(st.integers(0, 9)) == 0:
        steps[-1]["mboz"] = draw(st.integers(1, 3))
        steps[-1]["nboz"] = draw(st.integers(13, 60))
    if draw(st.integers(0, 11)) == 7:       # mode numbers that need more than 16 bits
        steps[-1]["cfg"]["nfp"] = draw(st.integers(1000, 9000))
        steps[-1]["cfg"].pop("real", None)
        steps[-1]["nboz"] = draw(st.integers(4, 24))
        steps[-1]["mboz"] = draw(st.integers(1, 4))
    return {"steps": steps}


def strategy(tier):
    return _s()


def shapes(b, a, case, what):
    nfp, mboz, nboz, S = a["nfp"], case["mboz"], case["nboz"], case["surfs"]
    table = [(m, n * nfp) for m in range(mboz) for n in range(0 if m == 0 else -nboz, nboz + 1)]
    check(b.mnboz == len(table), "%s: mnboz is %d, expected %d", what, b.mnboz, len(table))
    got = list(zip(np.asarray(b.xm_b).tolist(), np.asarray(b.xn_b).tolist()))
    check(np.shape(b.xm_b) == (len(table),) == np.shape(b.xn_b), "%s: xm_b, xn_b have shapes %s, %s", what, np.shape(b.xm_b), np.shape(b.xn_b))
    check(got == table, "%s: the mode table differs first at %s", what,
          next(((i, x, y) for i, (x, y) in enumerate(zip(got, table)) if x != y), None))
    check(b.ns_b == len(S), "%s: ns_b is %d for %d surfaces", what, b.ns_b, len(S))
    for k in SYM_OUT:
        check(getattr(b, k).shape == (len(table), len(S)), "%s: %s has shape %s", what, k, getattr(b, k).shape)
    for k in ASYM_OUT:
        want = (len(table), len(S)) if a["asym"] else (0, 0)
        check(getattr(b, k).shape == want, "%s: %s has shape %s, expected %s", what, k, getattr(b, k).shape, want)
    for k in ("s_b", "Boozer_G", "Boozer_I"):
        check(np.shape(getattr(b, k)) == (len(S),), "%s: %s has shape %s", what, k, np.shape(getattr(b, k)))
    for k in ("Boozer_G_all", "Boozer_I_all"):
        check(np.shape(getattr(b, k)) == (a["ns_in"],), "%s: %s has shape %s", what, k, np.shape(getattr(b, k)))


def run(case, ctx):
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    steps = case["steps"]
    for i, s in enumerate(steps):
        a = gen.materialize(s["cfg"])
        last = i == len(steps) - 1
        if s["via_file"] and not last and s["surfs"]:
            w = ran(ctx.bx, a, s["mboz"], s["nboz"], s["surfs"])
            p = ctx.path("x.nc")
            w.write_boozmn(p)
            b.read_boozmn(p)
            os.unlink(p)
        else:
            set_attrs(b, a)
            b.mboz, b.nboz, b.compute_surfs = s["mboz"], s["nboz"], s["surfs"]
            b.run()
        shapes(b, a, s, "step %d" % i)
    c01.compare(b, a, s, "step %d: " % i)
    S = s["surfs"]
    close(b.Boozer_I, a["bsubumnc"][0][S], 0.0, "Boozer_I")
    close(b.Boozer_G, a["bsubvmnc"][0][S], 0.0, "Boozer_G")
    close(b.Boozer_I_all, a["bsubumnc"][0], 0.0, "Boozer_I_all")
    close(b.Boozer_G_all, a["bsubvmnc"][0], 0.0, "Boozer_G_all")
    close(b.s_b, a["s_in"][S], 0.0, "s_b")
    tags = gen.cfg_tags(s["cfg"]) + ["%d uses" % len(steps)] + ["no surfaces"] * any(not x["surfs"] for x in steps)
    if len(steps) > 1:
        tags.append("%s after %s" % ("asym" if a["asym"] else "sym", "asym" if steps[-2]["cfg"]["asym"] else "sym"))
    return {"nontrivial": len(steps) > 1 or b.mnboz > 1, "tags": tags}
